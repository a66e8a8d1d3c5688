From 005c205e34a2eef482aa8efb4b383a2bd267cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 01/30] fix: report truncated 8xp/83p/82p files instead of
 panicking

---
 src/calculator/file/from_8xp.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..7313648 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,19 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    let metadata_length = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => 17,
+        _ => 19,
+    };
+
+    // header, metadata, and checksum
+    if bytes.len() < 55 + metadata_length + 2 {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "{} bytes is too short for a program file",
+            bytes.len()
+        )));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
-- 
2.43.0


From a0267b649d8362666e9b84c8412b3892a9ca8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 02/30] fix: do not panic on paths that are not valid UTF-8

---
 src/calculator/program.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..5f9df33 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -24,7 +24,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -64,7 +64,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -102,7 +102,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -434,7 +434,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
@@ -544,7 +544,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
                 err.to_string(),
             ))
         }
-- 
2.43.0


From 5187b468e5af0fd5793ee9b0ef290d356b51288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 03/30] fix: recognise the TI-83 signature instead of treating
 TI-83 programs as TI-82

---
 src/calculator/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..0ab0765 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -24,6 +24,7 @@ impl ModelDetails {
         match byte {
             0x00 => match signature {
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
             0x04 => Ok(ModelDetails::new(Model::TI83Plus, "**TI83F*", 0x04, "en")),
-- 
2.43.0


From ccf45ac4043db717b0107a13f6a55dcab8af2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 04/30] fix: keep the model when converting through json

---
 src/calculator/models.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 0ab0765..c01f4e4 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -82,7 +82,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -111,6 +111,16 @@ pub enum Model {
     Latest,
 }
 
+// Models are deserialized from their names
+impl Serialize for Model {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl PartialEq for Model {
     fn eq(&self, other: &Self) -> bool {
         self.to_string() == other.to_string()
-- 
2.43.0


From 0cd915de095ba5822d8b8fd6624df9427323b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 05/30] fix: pick the same token every run when several share a
 translation

---
 src/calculator/tokens/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..5b9b9ec 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -125,7 +125,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            if value.starts_with(translation)
+                && (translation.len() > longest_length
+                    || (translation.len() == longest_length
+                        && comes_first(token, longest_key)))
+            {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -155,7 +159,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            if value.starts_with(translation)
+                && (translation.len() < shortest_length
+                    || (translation.len() == shortest_length
+                        && comes_first(token, shortest_key)))
+            {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
@@ -170,6 +178,12 @@ impl Map {
     }
 }
 
+/// Orders tokens that share a translation, so that the choice between them does not depend on
+/// the iteration order of the map: fewer bytes first, then the lower bytes
+fn comes_first(key: &str, other: &str) -> bool {
+    (key.len(), key) < (other.len(), other)
+}
+
 #[derive(Debug, Deserialize)]
 pub struct TokenDefinition {
     pub syntax: String,
-- 
2.43.0


From c48b16e9f7362ba67da5290d3a27af785c62048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 06/30] fix: reject programs whose length does not fit in the
 16 bit length fields

---
 src/calculator/file/from_txt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..d31a357 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -65,6 +65,14 @@ pub fn create_from_txt(
 
     let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
 
+    // the lengths in the file are 16 bit and include up to 19 bytes of metadata
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "{} bytes is too long for the body of a program",
+            body_bytes.len()
+        )));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From 263986efa420daee216ae43b53379c3058ca5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 07/30] fix: keep new lines at the end of a program when
 converting through txt

---
 src/calculator/file/encode.rs | 2 +-
 src/calculator/program.rs     | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 02f7c17..0b9d6dc 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -55,7 +55,7 @@ pub fn encode(
     };
 
     let mut state = EncodeState::new(encode_mode);
-    for line in decoded_program.lines() {
+    for line in decoded_program.split('\n') {
         let mut temp_line = line.to_string();
 
         while !temp_line.is_empty() {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5f9df33..380b6df 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -175,7 +175,7 @@ impl Program {
                 write_to_file(path, output_bytes)?
             }
             ProgramFileType::TXT => {
-                let output_string = format!(
+                let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
                     self.metadata.name,
                     self.header.comment,
@@ -185,6 +185,12 @@ impl Program {
                     self.model.model.to_string(),
                     &self.body.translation
                 );
+
+                // A new line at the end of the file is not part of the program when it is read
+                if self.body.translation.ends_with('\n') {
+                    output_string.push('\n');
+                }
+
                 write_to_file(path, output_string)?
             }
             ProgramFileType::JSON => {
-- 
2.43.0


From 0bf67ed0edac96b5a17c60388cb6e4332d9acedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 08/30] fix: keep the display mode of a txt file when saving it
 as txt or json

---
 src/calculator/file/from_txt.rs | 29 ++++++++++++++++++++++++++---
 src/calculator/program.rs       | 10 +++-------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index d31a357..c5c4620 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,17 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<
+    (
+        Header,
+        Metadata,
+        Body,
+        Checksum,
+        DisplayMode,
+        ModelDetails,
+    ),
+    TiToolsError,
+> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +73,13 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(
+        &body_string,
+        &tokens,
+        true,
+        display_mode.clone(),
+        encode_mode,
+    )?;
 
     // the lengths in the file are 16 bit and include up to 19 bytes of metadata
     if body_bytes.len() + 19 > u16::MAX as usize {
@@ -134,7 +150,14 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((
+        header,
+        metadata,
+        body,
+        checksum,
+        display_mode,
+        model_details,
+    ))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 380b6df..df17a32 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -80,19 +80,15 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, display_mode, model) =
+            create_from_txt(path, encode_mode)?;
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From 98f585b97f2be40ee3f2959386a824e9afc81d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 09/30] =?UTF-8?q?fix:=20encode=20names=20after=20prgm=20an?=
 =?UTF-8?q?d=20=CA=9F=20character=20by=20character=20in=20smart=20mode?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/calculator/file/encode.rs | 41 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 0b9d6dc..d2135cd 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -59,7 +59,15 @@ pub fn encode(
         let mut temp_line = line.to_string();
 
         while !temp_line.is_empty() {
+            let name_character = if state.in_custom_name {
+                get_name_character(tokens, &temp_line, &display_mode)
+            } else {
+                None
+            };
+            state.in_custom_name = name_character.is_some();
+
             let token: Option<(String, String)> = match state.current_mode {
+                _ if state.in_custom_name => name_character,
                 EncodeMode::Max => tokens.get_longest_matching_token(&temp_line, &display_mode),
                 EncodeMode::Min => tokens.get_shortest_matching_token(&temp_line, &display_mode),
                 EncodeMode::Smart => tokens.get_longest_matching_token(&temp_line, &display_mode),
@@ -70,11 +78,8 @@ pub fn encode(
                     let key_as_bytes = convert_key_to_bytes(&key);
 
                     if state.default_is_smart() {
-                        if state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB]
-                        {
-                            // prgm and ʟ
-                            state.in_custom_name = true;
-                            state.current_mode = &EncodeMode::Max;
+                        if state.in_custom_name {
+                            // part of the name, the mode stays the same
                         } else if key_as_bytes == vec![0x2A] {
                             state.in_string = !state.in_string;
                             // Send(
@@ -87,6 +92,12 @@ pub fn encode(
                         } else if !value.chars().all(|c| c.is_ascii_alphabetic()) {
                             state.reset()
                         }
+
+                        // prgm and ʟ
+                        if key_as_bytes == vec![0x5F] || key_as_bytes == vec![0xEB] {
+                            state.in_custom_name = true;
+                            state.current_mode = &EncodeMode::Max;
+                        }
                     }
 
                     encoded_program.extend(&key_as_bytes);
@@ -107,6 +118,26 @@ pub fn encode(
     Ok(encoded_program)
 }
 
+/// Gets the next character of a program or list name: 0-9, A-Z or θ
+fn get_name_character(
+    tokens: &Map,
+    value: &str,
+    display_mode: &DisplayMode,
+) -> Option<(String, String)> {
+    [
+        tokens.get_shortest_matching_token(value, display_mode),
+        tokens.get_longest_matching_token(value, display_mode),
+    ]
+    .into_iter()
+    .flatten()
+    .find(|(key, _)| {
+        matches!(
+            convert_key_to_bytes(key)[..],
+            [0x30..=0x39] | [0x41..=0x5B]
+        )
+    })
+}
+
 fn normalize(string: &str) -> String { 
     string
         .replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ")
-- 
2.43.0


From 260545f135dc060d0118b3af6d20a71c46eed5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 10/30] fix: update the checksum when editing a program

---
 src/calculator/program.rs | 15 +++++++++++++++
 src/commands/edit/mod.rs  |  5 ++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index df17a32..acdd926 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -127,6 +127,11 @@ impl Program {
         Ok(program)
     }
 
+    /// Recalculates the checksum, which covers the metadata and the body
+    pub fn update_checksum(&mut self) {
+        self.checksum = Checksum::from_bytes(&self.metadata.bytes, &self.body.bytes);
+    }
+
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
@@ -385,6 +390,16 @@ impl Checksum {
         Checksum { bytes, value }
     }
 
+    /// The low 16 bits of the sum of the metadata and body bytes
+    pub fn from_bytes(metadata_bytes: &[u8], body_bytes: &[u8]) -> Checksum {
+        let value = metadata_bytes
+            .iter()
+            .chain(body_bytes)
+            .fold(0u16, |sum, &byte| sum.wrapping_add(byte as u16));
+
+        Checksum::new(value.to_le_bytes().to_vec(), value)
+    }
+
     pub fn display(&self) -> String {
         format!(
             "Checksum\n\
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..c23855e 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -20,11 +20,14 @@ fn load_program(input_path: &Path) -> Program {
 }
 
 fn save_edits(
-    program: Program,
+    mut program: Program,
     input_path: &PathBuf,
     new_file_path: Option<String>,
     delete_old: bool,
 ) {
+    // The edits change bytes that the checksum covers
+    program.update_checksum();
+
     if new_file_path.is_none() {
         let result = program.save_to(&input_path.to_path_buf());
 
-- 
2.43.0


From 3c9832d07901924ef90b7196b8be5f6a24acac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 11/30] fix: write comments one byte per character, the way
 they are read

---
 src/calculator/errors.rs  |  4 ++++
 src/calculator/program.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/calculator/errors.rs b/src/calculator/errors.rs
index ef3fc4f..384a6a9 100644
--- a/src/calculator/errors.rs
+++ b/src/calculator/errors.rs
@@ -21,6 +21,7 @@ pub enum TiToolsError {
     /**File, Error */
     FailedToWriteFile(String, String),
     InvalidCommentLength,
+    InvalidCommentCharacters,
     /**Type encode|decode */
     MassConversionInputNotDirectory(String),
     /**Type encode|decode */
@@ -73,6 +74,9 @@ impl TiToolsError {
             TiToolsError::InvalidCommentLength => {
                 "Comment must be 42 characters or less".to_string()
             }
+            TiToolsError::InvalidCommentCharacters => {
+                "Comment can only contain single byte characters".to_string()
+            }
             TiToolsError::MassConversionInputNotDirectory(conversion_type) => {
                 format!(
                     "When mass {} the input path must lead to a directory",
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index acdd926..b01a9a5 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -255,11 +255,17 @@ impl Header {
     }
 
     pub fn comment(&mut self, comment: String) -> Result<(), TiToolsError> {
-        if comment.len() > 42 {
+        // Each character is a single byte in the file
+        let mut comment_bytes = comment
+            .chars()
+            .map(u8::try_from)
+            .collect::<Result<Vec<u8>, _>>()
+            .map_err(|_| TiToolsError::InvalidCommentCharacters)?;
+
+        if comment_bytes.len() > 42 {
             return Err(TiToolsError::InvalidCommentLength);
         }
 
-        let mut comment_bytes = comment.as_bytes().to_vec();
         while comment_bytes.len() != 42 {
             comment_bytes.push(0x00)
         }
-- 
2.43.0


From b144cb90d8c5e49b0fc268a3a27d8cae914514d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 12/30] fix: do not delete the existing file when the output
 extension is invalid

---
 src/calculator/program.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index b01a9a5..5ca50b5 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -133,6 +133,11 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
@@ -159,11 +164,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
-- 
2.43.0


From bfea6b029e49aa7bce03ecc4db9ce983ee36be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 13/30] fix: do not lose the existing file when writing its
 replacement fails

---
 src/calculator/program.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5ca50b5..96dae68 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -147,16 +147,7 @@ impl Program {
             std::io::stdin().read_line(&mut input).unwrap();
             let input = input.trim();
             if input == "y" || input == "Y" {
-                println!("Deleting existing file");
-
-                match std::fs::remove_file(path) {
-                    Ok(_) => {
-                        println!("Deleted existing file");
-                    }
-                    Err(err) => {
-                        return Err(TiToolsError::FailedToDeleteFile(err.to_string()));
-                    }
-                }
+                println!("Replacing existing file");
             } else {
                 return Err(TiToolsError::Quit(
                     "User chose not to overwrite file".to_string(),
@@ -562,8 +553,25 @@ impl Destination {
     }
 }
 
+/// Writes to a temporary file first, so that an existing file is only replaced by a complete one
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    match std::fs::write(path, content) {
+    let temporary_path = path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
+
+    let result = std::fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temporary_path)
+        .and_then(|mut file| {
+            file.write_all(content.as_ref())
+                .and_then(|_| file.sync_all())
+                .and_then(|_| std::fs::rename(&temporary_path, path))
+                .map_err(|err| {
+                    let _ = std::fs::remove_file(&temporary_path);
+                    err
+                })
+        });
+
+    match result {
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-- 
2.43.0


From 98a1d4f28e067f9bed6bb9607720094e9a816257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 14/30] fix: do not delete the saved program when the new file
 is the old file

---
 src/commands/edit/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index c23855e..5d79c1f 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -45,7 +45,9 @@ fn save_edits(
             Err(err) => err.print().exit(),
         }
 
-        if delete_old {
+        if delete_old && is_same_file(input_path, &new_file_path) {
+            println!("The new file replaced the old file.");
+        } else if delete_old {
             let result = std::fs::remove_file(input_path);
 
             match result {
@@ -59,3 +61,10 @@ fn save_edits(
         }
     }
 }
+
+fn is_same_file(path: &Path, other: &Path) -> bool {
+    match (path.canonicalize(), other.canonicalize()) {
+        (Ok(path), Ok(other)) => path == other,
+        _ => false,
+    }
+}
-- 
2.43.0


From afcfe07695182b985d54ddd0fb0fd6c833a868b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 15/30] fix: reject json programs with a header, metadata, or
 checksum of the wrong size

---
 src/calculator/program.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 96dae68..0d8c502 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -124,6 +124,21 @@ impl Program {
             Err(err) => return Err(TiToolsError::FailedToDeserializeJson(err.to_string())),
         };
 
+        for (name, bytes, length) in [
+            ("header", &program.header.bytes, 55),
+            ("metadata", &program.metadata.bytes, 19),
+            ("checksum", &program.checksum.bytes, 2),
+        ] {
+            if bytes.len() != length {
+                return Err(TiToolsError::InvalidByteLength(format!(
+                    "{} is {} bytes instead of {}",
+                    name,
+                    bytes.len(),
+                    length
+                )));
+            }
+        }
+
         Ok(program)
     }
 
-- 
2.43.0


From d0d2fab26e48ed45f1b92c49c0c4beaefc586643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 16/30] fix: read and write the 17 byte metadata of 83p and 82p
 files

---
 src/calculator/file/from_8xp.rs | 38 ++++++++++++++++++++++++++-------
 src/calculator/program.rs       | 23 +++++++++++++++++++-
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 7313648..84dae3d 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -48,6 +48,14 @@ pub fn create_from_8xp(
     };
     let (body_bytes, checksum_bytes) = bytes.split_at(bytes.len() - 2);
 
+    // The metadata of 83p and 82p files is extended to the 19 bytes it has in 8xp files
+    if metadata_length == 17 && body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "{} bytes is too long for the body of a program",
+            body_bytes.len()
+        )));
+    }
+
     // header translation
     let signature = header_bytes[0..8]
         .iter()
@@ -73,10 +81,15 @@ pub fn create_from_8xp(
         .map(|byte| *byte as char)
         .collect::<String>();
 
+    let mut header_bytes = header_bytes.to_vec();
+    if metadata_length == 17 {
+        let metadata_and_body_length = (body_bytes.len() + 19) as u16;
+        header_bytes.splice(53..55, metadata_and_body_length.to_le_bytes());
+    }
     let metadata_and_body_length = [header_bytes[53], header_bytes[54]];
 
     let header = Header::new(
-        header_bytes.to_vec(),
+        header_bytes,
         signature,
         signature_extra.to_vec(),
         product_id,
@@ -121,16 +134,18 @@ pub fn create_from_8xp(
             new_metadata_bytes.push(0x00);
             let body_and_checksum_length = (body_bytes.len() + 2) as u16;
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            let file_type = FileType::from_byte(metadata_bytes[4])?;
+            new_metadata_bytes.push(file_type.to_byte());
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
-            new_metadata_bytes.push(0x00);
+            new_metadata_bytes.extend(&metadata_bytes[5..13]);
+            new_metadata_bytes.push(0x00); // version
+            new_metadata_bytes.push(Destination::RAM.to_byte());
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
+            let body_length = body_bytes.len() as u16;
             new_metadata_bytes.extend(body_length.to_le_bytes());
 
             Metadata::new(
@@ -138,7 +153,7 @@ pub fn create_from_8xp(
                 0x0D,
                 0x00,
                 body_and_checksum_length,
-                FileType::Program,
+                file_type,
                 name,
                 0x00,
                 Destination::RAM,
@@ -164,9 +179,16 @@ pub fn create_from_8xp(
     let body = Body::new(body_bytes.to_vec(), translation);
 
     // checksum translation
-    let checksum_value = u16::from_le_bytes([checksum_bytes[0], checksum_bytes[1]]);
+    let checksum = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            Checksum::from_bytes(&metadata.bytes, body_bytes)
+        }
+        _ => {
+            let checksum_value = u16::from_le_bytes([checksum_bytes[0], checksum_bytes[1]]);
 
-    let checksum = Checksum::new(checksum_bytes.to_vec(), checksum_value);
+            Checksum::new(checksum_bytes.to_vec(), checksum_value)
+        }
+    };
 
     Ok((header, metadata, body, checksum, model_details))
 }
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 0d8c502..df37767 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -171,7 +171,28 @@ impl Program {
         }
 
         match file_type {
-            ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+                // The metadata has no version and destination, so it is 2 bytes shorter
+                let mut header_bytes = self.header.bytes.to_vec();
+                let metadata_and_body_length = (self.body.bytes.len() + 17) as u16;
+                header_bytes.splice(53..55, metadata_and_body_length.to_le_bytes());
+
+                let mut metadata_bytes = self.metadata.bytes.to_vec();
+                metadata_bytes[0] = 0x0B;
+                metadata_bytes.drain(13..15);
+
+                let checksum = Checksum::from_bytes(&metadata_bytes, &self.body.bytes);
+
+                let mut output_bytes = Vec::new();
+
+                output_bytes.extend(header_bytes);
+                output_bytes.extend(metadata_bytes);
+                output_bytes.extend(self.body.bytes.to_vec());
+                output_bytes.extend(checksum.bytes);
+
+                write_to_file(path, output_bytes)?
+            }
+            ProgramFileType::XP => {
                 let mut output_bytes = Vec::new();
 
                 output_bytes.extend(self.header.bytes.to_vec());
-- 
2.43.0


From 7c6ad96cfb376521fa144982b3e8c374a35a311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 17/30] fix: keep the files of a mass conversion inside the
 output directory

---
 src/commands/convert.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..f25f69e 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -4,7 +4,7 @@ use crate::calculator::{DisplayMode, EncodeMode};
 use crate::prints;
 use std::fs;
 use std::io::Write;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 pub fn convert_command(
     input_path_string: String,
@@ -174,13 +174,9 @@ pub fn convert_command(
                 | ProgramFileType::XPTwo
                 | ProgramFileType::TXT => {
                     let output_path = if file_type.is_8xp() {
-                        Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("txt")
+                        output_file_path(output_path_string.as_ref().unwrap(), &name, "txt")
                     } else {
-                        Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("8xp")
+                        output_file_path(output_path_string.as_ref().unwrap(), &name, "8xp")
                     };
 
                     match program.save_to(&output_path) {
@@ -221,13 +217,11 @@ pub fn convert_command(
                     }
                 }
                 ProgramFileType::JSON => {
-                    let txt_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("txt");
+                    let txt_output_path =
+                        output_file_path(output_path_string.as_ref().unwrap(), &name, "txt");
 
-                    let xp_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("8xp");
+                    let xp_output_path =
+                        output_file_path(output_path_string.as_ref().unwrap(), &name, "8xp");
 
                     match program.save_to(&txt_output_path) {
                         Ok(_) => {
@@ -304,6 +298,13 @@ pub fn convert_command(
     }
 }
 
+/// The name comes from the program, so it must not be able to lead out of the output directory
+fn output_file_path(output_directory: &str, name: &str, extension: &str) -> PathBuf {
+    let name = name.replace(['/', '\\'], "_");
+
+    Path::new(output_directory).join(format!("{}.{}", name, extension))
+}
+
 fn convert_program(
     program_file_type: &ProgramFileType,
     input_path: &Path,
-- 
2.43.0


From 5f21c60a4833fed2e91e09f8506d32457717f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 18/30] fix: report directory errors of mass conversions
 instead of panicking

---
 src/commands/convert.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index f25f69e..92da044 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -115,11 +115,19 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        fs::create_dir(Path::new(&output_path_string.as_ref().unwrap()))
-            .expect("Failed to create directory")
+        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            TiToolsError::FileWrite(err.to_string()).print().exit()
+        }
     }
 
-    for entry in fs::read_dir(input_path).expect("Failed to read directory") {
+    let entries = match fs::read_dir(input_path) {
+        Ok(entries) => entries,
+        Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
+            .print()
+            .exit(),
+    };
+
+    for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
             Err(_) => {
-- 
2.43.0


From e7220c40eab23c953de883cf52ec112414b467fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 19/30] fix: do not convert the files a mass conversion just
 saved

---
 src/commands/convert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 92da044..aafbb4c 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -120,8 +120,9 @@ pub fn convert_command(
         }
     }
 
-    let entries = match fs::read_dir(input_path) {
-        Ok(entries) => entries,
+    // Collected first, so that files saved into the same directory are not converted again
+    let entries: Vec<_> = match fs::read_dir(input_path) {
+        Ok(entries) => entries.collect(),
         Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
             .print()
             .exit(),
-- 
2.43.0


From 81bd1cd68b6728fe5c7b0e93d1a21c3dc3815c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 20/30] fix: do not panic on brackets and non-ASCII text in
 styled output

---
 src/styles.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..432a3f6 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,11 +148,18 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
+            if styled_string[i..].starts_with("[") {
+                let end = styled_string[i..].find("]").unwrap_or(len - i) + i;
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
 
+                // Not a directive, so the bracket is printed as it is
+                if end == len || parts.len() != 2 || !["color", "bg", "style"].contains(&parts[0]) {
+                    result.push('[');
+                    i += 1;
+                    continue;
+                }
+
                 if parts.len() == 2 {
                     match parts[0] {
                         "color" => {
-- 
2.43.0


From c124c91d794a61a13247524aa2807820d51c1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 21/30] fix: treat an unreadable answer to a prompt as no
 instead of panicking

---
 src/calculator/program.rs |  4 +++-
 src/commands/convert.rs   | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index df37767..ff63a0a 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -159,7 +159,9 @@ impl Program {
             print!("> ");
             input.clear();
             std::io::stdout().flush().unwrap();
-            std::io::stdin().read_line(&mut input).unwrap();
+            if std::io::stdin().read_line(&mut input).is_err() {
+                input.clear();
+            }
             let input = input.trim();
             if input == "y" || input == "Y" {
                 println!("Replacing existing file");
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index aafbb4c..c87a8fd 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -107,7 +107,9 @@ pub fn convert_command(
         print!("> ");
         input.clear();
         std::io::stdout().flush().unwrap();
-        std::io::stdin().read_line(&mut input).unwrap();
+        if std::io::stdin().read_line(&mut input).is_err() {
+            input.clear();
+        }
         let input = input.trim();
         if input != "y" && input != "Y" {
             prints!("[color:bright-red]Error:[color:reset] An output directory must be created for files to be saved");
@@ -213,7 +215,9 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            if std::io::stdin().read_line(&mut input).is_err() {
+                                input.clear();
+                            }
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -255,7 +259,9 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            if std::io::stdin().read_line(&mut input).is_err() {
+                                input.clear();
+                            }
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -290,7 +296,9 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            if std::io::stdin().read_line(&mut input).is_err() {
+                                input.clear();
+                            }
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
-- 
2.43.0


From 46e3f402cd2b451195e486aec8441dbd2ed36e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 22/30] fix: keep the name and the comment of a txt file on one
 line each

---
 src/calculator/program.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index ff63a0a..fe2fa26 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -205,10 +205,11 @@ impl Program {
                 write_to_file(path, output_bytes)?
             }
             ProgramFileType::TXT => {
+                // The name and the comment take up one line each
                 let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
-                    self.metadata.name,
-                    self.header.comment,
+                    self.metadata.name.replace(['\n', '\r'], " "),
+                    self.header.comment.replace(['\n', '\r'], " "),
                     self.metadata.file_type.to_string(),
                     self.metadata.destination.to_string(),
                     self.display_mode.to_string(),
-- 
2.43.0


From adbfa7ed8e357afa93f5ee6671d67f089360dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 23/30] fix: do not interpret the values of arguments as
 arguments

---
 src/cli.rs | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..0b57d85 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -106,7 +106,7 @@ impl Cli {
                     std::process::exit(0);
                 });
 
-            if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {
+            if command.position(&args, "-h", "--help").is_some() {
                 self.help(Some(command_name));
                 std::process::exit(0);
             }
@@ -157,13 +157,7 @@ impl Command {
         if arg.requires.is_some() {
             for required in arg.requires.as_ref().unwrap() {
                 let required_arg = self.find_arg(required).unwrap();
-                if !env_args
-                    .iter()
-                    .any(|s| *s == format!("-{}", required_arg.short))
-                    && !env_args
-                        .iter()
-                        .any(|s| *s == format!("--{}", required_arg.long))
-                {
+                if self.arg_position(env_args, required_arg).is_none() {
                     println!(
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
@@ -178,6 +172,36 @@ impl Command {
         self.args.iter().find(|&arg| arg.name == arg_name)
     }
 
+    fn arg_position(&self, env_args: &[String], arg: &Arg) -> Option<usize> {
+        self.position(
+            env_args,
+            &format!("-{}", arg.short),
+            &format!("--{}", arg.long),
+        )
+    }
+
+    /// Find the position of an argument, the values of arguments are not searched
+    fn position(&self, env_args: &[String], short: &str, long: &str) -> Option<usize> {
+        let mut index = 0;
+
+        while index < env_args.len() {
+            let value = &env_args[index];
+
+            if value == short || value == long {
+                return Some(index);
+            }
+
+            let takes_value = self.args.iter().any(|arg| {
+                arg.value_name.is_some()
+                    && (*value == format!("-{}", arg.short) || *value == format!("--{}", arg.long))
+            });
+
+            index += if takes_value { 2 } else { 1 };
+        }
+
+        None
+    }
+
     /// Check if a flag is present in the arguments
     pub fn has(&self, arg_name: &str) -> bool {
         self.args
@@ -185,9 +209,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .map(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let found = args
-                    .iter()
-                    .any(|s| *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long));
+                let found = self.arg_position(&args, arg).is_some();
 
                 if found {
                     self.check_if_required_args_are_present(&args, arg);
@@ -235,9 +257,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .and_then(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let arg_index = args.iter().position(|s| {
-                    *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long)
-                });
+                let arg_index = self.arg_position(&args, arg);
 
                 let value = arg_index.and_then(|index| args.get(index + 1));
                 value
-- 
2.43.0


From eeb43540c42583e038a727a2a827d2a3b4d464a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 24/30] fix: keep links and permissions when replacing a file

---
 src/calculator/program.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index fe2fa26..c8b939b 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -594,7 +594,9 @@ impl Destination {
 
 /// Writes to a temporary file first, so that an existing file is only replaced by a complete one
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    let temporary_path = path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
+    // A link stays a link, the file it leads to is replaced
+    let target_path = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+    let temporary_path = target_path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
 
     let result = std::fs::OpenOptions::new()
         .write(true)
@@ -602,8 +604,12 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         .open(&temporary_path)
         .and_then(|mut file| {
             file.write_all(content.as_ref())
+                .and_then(|_| match std::fs::metadata(&target_path) {
+                    Ok(metadata) => file.set_permissions(metadata.permissions()),
+                    Err(_) => Ok(()),
+                })
                 .and_then(|_| file.sync_all())
-                .and_then(|_| std::fs::rename(&temporary_path, path))
+                .and_then(|_| std::fs::rename(&temporary_path, &target_path))
                 .map_err(|err| {
                     let _ = std::fs::remove_file(&temporary_path);
                     err
-- 
2.43.0


From 7af67c12b880f4a5e5ca6a09fc5c3731f02671ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 25/30] fix: ignore directories with a program extension in
 mass conversions

---
 src/commands/convert.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index c87a8fd..0ca8e31 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -141,6 +141,10 @@ pub fn convert_command(
         };
 
         let path = entry.path();
+        if path.is_dir() {
+            continue;
+        }
+
         let file_type = match get_file_type(&path) {
             Ok(file_type) => file_type,
             Err(_) => continue,
-- 
2.43.0


From 6e1628d10a301b74c59263b6eaa636e7bb807dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 26/30] fix: sync the directory of a saved file before the old
 file is deleted

---
 src/calculator/program.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index c8b939b..a26596e 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -616,6 +616,13 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
                 })
         });
 
+    // The new name must be on disk before the old file is deleted, where directories can be synced
+    if result.is_ok() {
+        let directory = target_path.parent().filter(|path| !path.as_os_str().is_empty());
+        let _ = std::fs::File::open(directory.unwrap_or(Path::new(".")))
+            .and_then(|directory| directory.sync_all());
+    }
+
     match result {
         Ok(_) => Ok(()),
         Err(err) => {
-- 
2.43.0


From fe9fd89016d21a556f0bed566051c8f335a6032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:47 +0000
Subject: [PATCH 27/30] fix: save although a temporary file was left behind

---
 src/calculator/program.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index a26596e..57ee7b3 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -596,13 +596,9 @@ impl Destination {
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     // A link stays a link, the file it leads to is replaced
     let target_path = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
-    let temporary_path = target_path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
 
-    let result = std::fs::OpenOptions::new()
-        .write(true)
-        .create_new(true)
-        .open(&temporary_path)
-        .and_then(|mut file| {
+    let result = create_temporary_file(&target_path)
+        .and_then(|(mut file, temporary_path)| {
             file.write_all(content.as_ref())
                 .and_then(|_| match std::fs::metadata(&target_path) {
                     Ok(metadata) => file.set_permissions(metadata.permissions()),
@@ -633,3 +629,25 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         }
     }
 }
+
+/// The name may be taken by a process of another machine, or left over from one that was ended
+fn create_temporary_file(target_path: &Path) -> std::io::Result<(std::fs::File, PathBuf)> {
+    let mut attempt = 0;
+
+    loop {
+        let temporary_path =
+            target_path.with_file_name(format!(".ti-tools-{}-{}.tmp", std::process::id(), attempt));
+
+        match std::fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temporary_path)
+        {
+            Ok(file) => return Ok((file, temporary_path)),
+            Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists && attempt < 1000 => {
+                attempt += 1
+            }
+            Err(err) => return Err(err),
+        }
+    }
+}
-- 
2.43.0


From 00d96fcb1c8f93687376c45ee1e00dd0a3ea5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:13 +0000
Subject: [PATCH 28/30] fix: a mass conversion names the files it saved

---
 src/commands/convert.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 0ca8e31..4fb820d 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -203,11 +203,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                            "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.{}",
+                            "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                             program.metadata.name,
-                            output_path_string.as_ref().unwrap(),
-                            program.metadata.name,
-                            output_path.extension().unwrap().to_str().unwrap()
+                            output_path.display()
                         );
                         }
                         Err(err) => {
@@ -249,9 +247,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.txt",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                txt_output_path.display()
                             );
                         }
                         Err(err) => {
@@ -286,9 +284,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.8xp",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                xp_output_path.display()
                             );
                         }
                         Err(err) => {
-- 
2.43.0


From d2f52b3806bb05a4add9765f3853003409af1d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:44 +0000
Subject: [PATCH 29/30] fix: a refused command line ends with a failure status

---
 src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 0b57d85..bfea03a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -103,7 +103,7 @@ impl Cli {
                 .find(|&command| command.name == *command_name)
                 .unwrap_or_else(|| {
                     println!("Command not found: {}", command_name);
-                    std::process::exit(0);
+                    std::process::exit(1);
                 });
 
             if command.position(&args, "-h", "--help").is_some() {
@@ -162,7 +162,7 @@ impl Command {
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
                     );
-                    std::process::exit(0);
+                    std::process::exit(1);
                 }
             }
         }
-- 
2.43.0


From e81db0ef28d7e821f9e7dd1edb35503825bf8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:57 +0000
Subject: [PATCH 30/30] fix: arguments that are not UTF-8 are refused instead
 of a panic

---
 src/cli.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index bfea03a..3b7ab7c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -76,6 +76,12 @@ impl Cli {
 
     /// Match the command being passed in the arguments
     pub fn match_commands(&self) -> &Command {
+        // The arguments are read as text, which env::args cannot do with other bytes
+        if let Some(arg) = env::args_os().find(|arg| arg.to_str().is_none()) {
+            println!("Argument is not valid UTF-8: {}", arg.to_string_lossy());
+            std::process::exit(1);
+        }
+
         let args: Vec<String> = env::args().collect();
         if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {}
 
-- 
2.43.0

