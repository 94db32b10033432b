From f1785b5956e4ccd2efc3a045859fff6aff0a73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 01/66] fix: ESC G with an even operand turns double strike off
 completely

---
 thermal_parser/src/commands/set_double_strike.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/thermal_parser/src/commands/set_double_strike.rs b/thermal_parser/src/commands/set_double_strike.rs
index 0ad0e4b..a9e6aeb 100644
--- a/thermal_parser/src/commands/set_double_strike.rs
+++ b/thermal_parser/src/commands/set_double_strike.rs
@@ -8,17 +8,11 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
         let enable = (n & 0x00000001) == 1;
-        let mut strike = context.text.strikethrough.clone();
-
-        if enable {
-            strike = TextStrikethrough::Double
-        } else if strike == TextStrikethrough::Double {
-            strike = TextStrikethrough::On
+        context.text.strikethrough = if enable {
+            TextStrikethrough::Double
         } else {
-            strike = TextStrikethrough::Off
-        }
-
-        context.text.strikethrough = strike;
+            TextStrikethrough::Off
+        };
     }
 }
 
-- 
2.43.0


From d6639a027404946bb896e2b68bb0806bb352077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 02/66] fix: ESC ! takes the underline flag from bit 7

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From 54eefa71e7c375dbf1a668a4d98647dd5821ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 03/66] fix: GS B only looks at the lowest bit of its operand

---
 thermal_parser/src/commands/set_black_white_invert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..96c73bd 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -7,7 +7,8 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
 
-        if n == 1 {
+        let enable = (n & 0x00000001) == 1;
+        if enable {
             context.text.background_color = context.graphics.render_colors.color_1;
             context.text.color = context.graphics.render_colors.paper_color;
         } else {
@@ -15,7 +16,7 @@ impl CommandHandler for Handler {
             context.text.color = context.graphics.render_colors.color_1;
         }
 
-        context.text.invert = n == 1;
+        context.text.invert = enable;
     }
 }
 
-- 
2.43.0


From c91d51bc8ded12e936993c31adb577facd9f3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 04/66] fix: color number 48 selects the paper color

---
 thermal_parser/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..313abec 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -117,7 +117,7 @@ pub struct RenderColors {
 impl RenderColors {
     pub fn color_for_number(&self, number: u8) -> &RGBA {
         match number {
-            0 => &self.paper_color,
+            0 | 48 => &self.paper_color,
             1 | 49 => &self.color_1,
             2 | 50 => &self.color_2,
             3 | 51 => &self.color_3,
-- 
2.43.0


From 801d23ba29f9d8a22484295d680228f7f1392557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 05/66] fix: GS ( k datamatrix module size is registered under
 cn 54

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From c63d0a2edfdb141945849c84ece3c4e789df255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 06/66] fix: composite maximum width no longer overwrites the
 GS1 DataBar one

---
 .../src/subcommands/gs_code2d/composite_set_max_width.rs        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
index 827cdc9..8f964c5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
@@ -7,7 +7,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let nl = *command.data.get(0).unwrap_or(&0u8);
         let nh = *command.data.get(1).unwrap_or(&0u8);
-        context.code2d.gs1_databar_max_width = nl as u32 + nh as u32 * 256;
+        context.code2d.composite_max_width = nl as u32 + nh as u32 * 256;
     }
 }
 
-- 
2.43.0


From 008f59248d8eb6d932dbdb78b1198eb97c256666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 07/66] fix: QR error correction levels are selected by 48 to
 51

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From 464ad4835e1bcb5b0b7f6da1a9562d21593984ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 08/66] fix: PDF417 error correction with short or low operands
 does not underflow

---
 .../src/subcommands/gs_code2d/pdf417_set_correction_level.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..b6ec50c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,8 +8,8 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = m.saturating_sub(48);
 
         //Ratio based error correction
         if m == 49 {
-- 
2.43.0


From 8962ebf102465d5a31b54d2740e4c1c9017bb862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 09/66] fix: MaxiCode mode below 48 does not underflow

---
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..803fb16 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        context.code2d.maxicode_mode = n.saturating_sub(48);
     }
 }
 
-- 
2.43.0


From 8636ac67ad5edbfea93089696b1ee51a78e6c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 10/66] fix: DataMatrix size operands are not summed in a byte

---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..e9fafc0 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,7 +15,7 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
-- 
2.43.0


From 3842791c589f93f581ca5d22dfea6f77f4b69b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 11/66] fix: subcommand length below 2 does not underflow

---
 thermal_parser/src/subcommands/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..5bf561e 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -54,7 +54,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +62,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
-- 
2.43.0


From b7377ec78809a58db69bd8abd601f27a033d4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 12/66] fix: RGBA::with_alpha keeps the blue channel

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From adccc3af7ee4a42250ea4efcdeafa1e16d7a2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 13/66] fix: GS v 0 quadruple mode is selected by 3 or 51

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From a5e27b2638a6e874ddedfd91bd53287b91d27f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 14/66] fix: motion units stay between 1 and 255

---
 thermal_parser/src/commands/set_motion_units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..ecfcd55 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,8 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
-- 
2.43.0


From dbd105bdb81152a4e75ada9e20e74ae440faa773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 15/66] fix: too short nv column graphics are ignored instead
 of crashing

---
 .../src/subcommands/gs_graphics/define_nv_graphics_column.rs     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..ebf7478 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
-- 
2.43.0


From ab199a0bbb07cd18303b3e9da65a1ee6fbbcb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 16/66] fix: too short download column graphics are ignored
 instead of crashing

---
 .../subcommands/gs_graphics/define_download_graphics_column.rs   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..40b6b61 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
-- 
2.43.0


From 38fa6efc64b71e9d4ed680c7d194b98093d46f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 17/66] fix: too short print buffer graphics are an error
 instead of a crash

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From 6444a6e5daee10b7ee685ee0cdc1ded4306f17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 18/66] fix: EAN13 data with a multi-byte character is an error
 instead of a crash

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..c0707bf 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -189,7 +189,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
+                let data_sp = data.get(..12).unwrap_or(data);
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From 6d0d100ece0f0a7cc5524aed2082aed6a7b5b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 19/66] fix: barcode kinds 74 to 79 follow the ESC/POS
 numbering

---
 thermal_parser/src/commands/barcode.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index c0707bf..9793adf 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -306,12 +306,12 @@ impl CommandHandler for BarcodeHandler {
                 6 | 71 => BarcodeType::Nw7Codabar,
                 72 => BarcodeType::Code93,
                 73 => BarcodeType::Code128,
-                80 => BarcodeType::Gs1128,
-                81 => BarcodeType::Gs1DatabarOmni,
-                82 => BarcodeType::Gs1DatabarTruncated,
-                83 => BarcodeType::Gs1DatabarLimited,
-                84 => BarcodeType::Gs1DatabarExpanded,
-                85 => BarcodeType::Code128Auto,
+                74 => BarcodeType::Gs1128,
+                75 => BarcodeType::Gs1DatabarOmni,
+                76 => BarcodeType::Gs1DatabarTruncated,
+                77 => BarcodeType::Gs1DatabarLimited,
+                78 => BarcodeType::Gs1DatabarExpanded,
+                79 => BarcodeType::Code128Auto,
                 _ => BarcodeType::Unknown,
             };
 
-- 
2.43.0


From d68557fed882def28166b8b5276a6f0cac07d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 20/66] fix: a NUL terminated barcode at the end of the input
 loses its terminator

---
 thermal_parser/src/commands/barcode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 9793adf..b0168c6 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -51,6 +51,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -331,11 +332,14 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
-                data.push(byte);
+                if byte == NUL {
+                    self.terminated = true;
+                } else {
+                    data.push(byte);
+                }
                 true
             }
             EncodingFunction::ExplicitSize => {
@@ -368,6 +372,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From 81a9bedaa600b49d93cf1f8d2b7a6cd05846e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 21/66] fix: a subcommand at the end of the input keeps its
 data

---
 thermal_parser/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..6a43fca 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -58,6 +58,11 @@ impl Parser {
             let command = &mut cmd;
 
             if let Some(mut subcommand) = command.handler.get_subcommand() {
+                //The input ended before the data was moved into the subcommand
+                if subcommand.data.is_empty() {
+                    mem::swap(&mut subcommand.data, &mut command.data);
+                }
+
                 let mut expanded_cmds = vec![];
 
                 for command in command.commands.iter() {
-- 
2.43.0


From c76b5d2c5560ee3c2daf6b0615fe1787549f74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 22/66] fix: reverse line feeds move up instead of overflowing

---
 thermal_parser/src/context.rs    | 10 ++++++++++
 thermal_renderer/src/renderer.rs |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 313abec..aa7b3ec 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -713,6 +713,16 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    pub fn reverse_newline(&mut self, count: u32) {
+        let distance = self.text.line_spacing as u32 * count;
+        self.reset_x();
+        if self.page_mode.enabled {
+            self.page_mode.render_area.y = self.page_mode.render_area.y.saturating_sub(distance);
+        } else {
+            self.graphics.render_area.y = self.graphics.render_area.y.saturating_sub(distance);
+        }
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..9064ce9 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -255,7 +255,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        if *num_lines < 0 {
+                            self.context.reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From 7123127b58af7df4a9b64e58766838f1beeae9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 23/66] fix: a print that starts with text no longer reports an
 unknown command

---
 thermal_parser/src/parser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 6a43fca..5f1eb10 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -171,9 +171,6 @@ impl Parser {
                 if new_cmd.is_some() {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
                 }
                 return;
             }
-- 
2.43.0


From a0e8308f96d10fcbb25299e162d5117748f02bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 24/66] fix: the bytes of an incomplete command at the end of
 the input are not lost

---
 thermal_parser/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 5f1eb10..f65e6dc 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -41,6 +41,13 @@ impl Parser {
             self.emit_command(new_cmd_unwrapped);
         }
 
+        //The input ended in the middle of the command bytes
+        if !self.command_buffer.is_empty() {
+            let mut unknown_command = self.cmd_set.unknown.clone();
+            mem::swap(&mut unknown_command.data, &mut self.command_buffer);
+            self.emit_command(unknown_command);
+        }
+
         self.emit_command(self.cmd_set.end_parsing.clone());
 
         self.match_depth = 0;
-- 
2.43.0


From aed1ba93a5bcab28a84dcf1de68390981e99495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 25/66] fix: a subcommand without parameters at the end of the
 input is not lost

---
 thermal_parser/src/subcommands/mod.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 5bf561e..f9e773f 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -113,29 +113,21 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
         if !self.accept_data {
             // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
+            let meta_len = if self.is_large { 6 } else { 4 };
+
+            data.push(byte);
+
+            if data.len() == meta_len {
+                self.parse_meta(data);
+                data.clear();
             }
-            data.clear();
-            data_len = 0;
+            return true;
         }
 
         //Accept data
-        if data_len < (self.capacity as usize) {
+        if data.len() < (self.capacity as usize) {
             data.push(byte);
             return true;
         }
-- 
2.43.0


From 53d692d08e9f74cfa6fdf68e4ea31333b3be2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 26/66] fix: character effects without data do not take the
 next byte

---
 thermal_parser/src/commands/set_character_effects.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_character_effects.rs b/thermal_parser/src/commands/set_character_effects.rs
index 35e3372..8a36b04 100644
--- a/thermal_parser/src/commands/set_character_effects.rs
+++ b/thermal_parser/src/commands/set_character_effects.rs
@@ -17,8 +17,6 @@ impl CommandHandler for Handler {
             let pl = *command.get(0).unwrap();
             let ph = *command.get(1).unwrap();
             self.capacity = (pl as u32 + ph as u32 * 256) + 2;
-            command.push(byte);
-            return true;
         }
 
         if command.len() < self.capacity as usize {
-- 
2.43.0


From 31ed4a9bf4db5ec16ea79dc95ea2a60cfaf4aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 27/66] fix: a lone CAN does not swallow the start of the next
 command

---
 thermal_parser/src/parser.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index f65e6dc..65ece94 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -149,13 +149,34 @@ impl Parser {
         if self.command_matches.is_empty() {
             let mut new_cmd = None;
 
-            if self.command_buffer.len() > 0
+            let unknown_start = self.command_buffer.len() > 0
                 && self
                     .cmd_set
                     .unknown
                     .commands
-                    .contains(self.command_buffer.first().unwrap())
-            {
+                    .contains(self.command_buffer.first().unwrap());
+
+            //The bytes before this one looked like the start of a command but are not,
+            //this byte is free to start another command
+            if !unknown_start && self.command_buffer.len() > 1 {
+                self.command_buffer.pop();
+
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                mem::swap(&mut unknown_command.data, &mut self.command_buffer);
+
+                mem::swap(&mut self.current_command, &mut new_cmd);
+                if let Some(new_cmd_unwrapped) = new_cmd {
+                    self.emit_command(new_cmd_unwrapped);
+                }
+                self.emit_command(unknown_command);
+
+                self.current_command_is_default = false;
+                self.match_depth = 0;
+                self.parse(byte);
+                return;
+            }
+
+            if unknown_start {
                 let mut unknown_command = self.cmd_set.unknown.clone();
                 unknown_command.data = self.command_buffer.clone();
                 new_cmd = Some(unknown_command);
-- 
2.43.0


From f3284d5150bdee453fd0ecbaeb54a307ef1a6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 28/66] fix: ESC c sensor and panel button commands use the
 ASCII digits 3, 4 and 5

---
 thermal_parser/src/commands/paper_end_sensor.rs  | 2 +-
 thermal_parser/src/commands/print_stop_sensor.rs | 2 +-
 thermal_parser/src/commands/set_panel_buttons.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/paper_end_sensor.rs b/thermal_parser/src/commands/paper_end_sensor.rs
index 2cab94a..5260d48 100644
--- a/thermal_parser/src/commands/paper_end_sensor.rs
+++ b/thermal_parser/src/commands/paper_end_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Select Paper End Sensors",
-        vec![ESC, 'c' as u8, 3u8],
+        vec![ESC, 'c' as u8, '3' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/print_stop_sensor.rs b/thermal_parser/src/commands/print_stop_sensor.rs
index 4a7e665..e66d6e9 100644
--- a/thermal_parser/src/commands/print_stop_sensor.rs
+++ b/thermal_parser/src/commands/print_stop_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Print Stop Sensors",
-        vec![ESC, 'c' as u8, 4u8],
+        vec![ESC, 'c' as u8, '4' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/set_panel_buttons.rs b/thermal_parser/src/commands/set_panel_buttons.rs
index 84f17cd..0b8c45d 100644
--- a/thermal_parser/src/commands/set_panel_buttons.rs
+++ b/thermal_parser/src/commands/set_panel_buttons.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Enable Panel Buttons",
-        vec![ESC, 'c' as u8, 5u8],
+        vec![ESC, 'c' as u8, '5' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
-- 
2.43.0


From 04462862ff0516c2ccda114bc94a6f1ae9cca6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 29/66] fix: GS ( G takes the number of bytes it declares

---
 thermal_parser/src/commands/unknown_gs_g.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/thermal_parser/src/commands/unknown_gs_g.rs b/thermal_parser/src/commands/unknown_gs_g.rs
index 5c26898..5ee403a 100644
--- a/thermal_parser/src/commands/unknown_gs_g.rs
+++ b/thermal_parser/src/commands/unknown_gs_g.rs
@@ -1,24 +1,11 @@
-use crate::{command::*, constants::*, context::*};
-
-#[derive(Clone)]
-struct Handler;
-
-impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, context: &mut Context) {
-        //context.reset_x();
-
-        if context.page_mode.enabled {
-            //context.reset_y();
-        }
-    }
-}
+use crate::{command::*, constants::*, subcommands};
 
 pub fn new() -> Command {
     Command::new(
         "Unknown GS ( G",
         vec![GS, '(' as u8, 'G' as u8],
         CommandType::Context,
-        DataType::Quad,
-        Box::new(Handler {}),
+        DataType::Custom,
+        subcommands::new(false, false, subcommands::no_commands()),
     )
 }
-- 
2.43.0


From b8b75e23494a612fdef5aca87ba6e36b5d15bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 30/66] fix: GS ( G and GS ( H keep their parameters when
 converted back to bytes

---
 thermal_parser/src/subcommands/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index f9e773f..52f0bb4 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -18,6 +18,7 @@ pub struct SubCommandHandler {
     capacity: u32,
     accept_data: bool,
     use_m: bool,
+    params: Vec<u8>,
 }
 
 impl SubCommandHandler {
@@ -75,6 +76,7 @@ impl SubCommandHandler {
 
         // Here we are adding the commands into the subcommand
         // so we don't lose any bytes
+        self.params = data.to_vec();
         if let Some(sub) = &mut self.subcommand {
             sub.commands = Rc::new(data.to_vec());
         }
@@ -143,6 +145,14 @@ impl CommandHandler for SubCommandHandler {
         false
     }
 
+    //Used when converting commands back into other formats i.e. Thermal format
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        let mut data = self.params.clone();
+        let commands = command.commands.to_vec();
+        data.extend(command.data.clone());
+        (commands, data)
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
@@ -161,6 +171,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         capacity: 0,
         accept_data: false,
         use_m,
+        params: vec![],
     })
 }
 
-- 
2.43.0


From 6d440edc763fbc6a9ed1d40dc4dfe24efc65c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 31/66] fix: a packet with an unknown function is reported
 instead of lost

---
 thermal_parser/src/parser.rs          | 6 ++++++
 thermal_parser/src/subcommands/mod.rs | 2 --
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 65ece94..39013aa 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -83,6 +83,12 @@ impl Parser {
                 subcommand.commands = Rc::new(expanded_cmds);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //There is no such function or the input ended before it was known
+                let (commands, data) = command.handler.get_command_bytes(command);
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data = [commands, data].concat();
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 52f0bb4..1eeee6c 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -137,8 +137,6 @@ impl CommandHandler for SubCommandHandler {
         //Move the data into the subcommand
         if let Some(sub) = &mut self.subcommand {
             mem::swap(&mut sub.data, data);
-        } else {
-            println!("Missing subcommand");
         }
 
         //Stop accepting bytes
-- 
2.43.0


From e76f100a8585bc419423ae65439b04e756b86dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 32/66] fix: fix: ESC W outside page mode leaves the page area
 alone

---
 thermal_parser/src/commands/page_mode_print_area.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/page_mode_print_area.rs b/thermal_parser/src/commands/page_mode_print_area.rs
index 166025b..b1a5b09 100644
--- a/thermal_parser/src/commands/page_mode_print_area.rs
+++ b/thermal_parser/src/commands/page_mode_print_area.rs
@@ -65,9 +65,12 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
-        Some(vec![DeviceCommand::ChangePageArea])
+        if context.page_mode.enabled {
+            return Some(vec![DeviceCommand::ChangePageArea]);
+        }
+        None
     }
 
     fn debug(&self, command: &Command, _context: &Context) -> String {
-- 
2.43.0


From ba39cbeaf43cc4bf76a6a4761f8c24338133f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 33/66] fix: fix: ESC T outside page mode does not turn the
 page

---
 thermal_parser/src/commands/page_mode_print_direction.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/page_mode_print_direction.rs b/thermal_parser/src/commands/page_mode_print_direction.rs
index 583e202..bb8fcdf 100644
--- a/thermal_parser/src/commands/page_mode_print_direction.rs
+++ b/thermal_parser/src/commands/page_mode_print_direction.rs
@@ -93,9 +93,12 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
-        Some(vec![DeviceCommand::ChangePageModeDirection])
+        if context.page_mode.enabled {
+            return Some(vec![DeviceCommand::ChangePageModeDirection]);
+        }
+        None
     }
 }
 
-- 
2.43.0


From 648c197b841b0f9087d3a02deb46f43cd72ae7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 34/66] fix: fix: ESC S ends page mode through the renderer

---
 thermal_parser/src/commands/select_standard_mode.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/select_standard_mode.rs b/thermal_parser/src/commands/select_standard_mode.rs
index dd57a34..df21849 100644
--- a/thermal_parser/src/commands/select_standard_mode.rs
+++ b/thermal_parser/src/commands/select_standard_mode.rs
@@ -11,10 +11,6 @@ use crate::{command::*, constants::*};
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, context: &mut Context) {
-        context.page_mode.enabled = false;
-    }
-
     fn get_device_command(
         &self,
         _command: &Command,
@@ -31,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Select standard mode",
         vec![ESC, 'S' as u8],
-        CommandType::Context,
+        CommandType::Control,
         DataType::Empty,
         Box::new(Handler {}),
     )
-- 
2.43.0


From 8ba8bd97b9fc1e928c77a9e28715ab8be0bcf3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 35/66] fix: international character sets replace the
 characters of the ESC/POS table

---
 thermal_parser/src/decoder/international.rs | 96 ++++++++++-----------
 1 file changed, 46 insertions(+), 50 deletions(-)

diff --git a/thermal_parser/src/decoder/international.rs b/thermal_parser/src/decoder/international.rs
index 0fa3ac7..48df32c 100644
--- a/thermal_parser/src/decoder/international.rs
+++ b/thermal_parser/src/decoder/international.rs
@@ -6,15 +6,13 @@ pub static FRANCE: Language = (
     "French",
     &[
         (0x40, "à"),
-        (0x5B, "ç"),
-        (0x5C, "§"),
-        (0x5D, "^"),
-        (0x5E, "é"),
-        (0x60, "ù"),
-        (0x7B, "è"),
-        (0x7C, "¨"),
-        (0x7D, "û"),
-        (0x7E, "ü"),
+        (0x5B, "°"),
+        (0x5C, "ç"),
+        (0x5D, "§"),
+        (0x7B, "é"),
+        (0x7C, "ù"),
+        (0x7D, "è"),
+        (0x7E, "¨"),
     ],
 );
 
@@ -25,10 +23,10 @@ pub static GERMANY: Language = (
         (0x5B, "Ä"),
         (0x5C, "Ö"),
         (0x5D, "Ü"),
-        (0x60, "ä"),
-        (0x7B, "ö"),
-        (0x7C, "ü"),
-        (0x7D, "ß"),
+        (0x7B, "ä"),
+        (0x7C, "ö"),
+        (0x7D, "ü"),
+        (0x7E, "ß"),
     ],
 );
 
@@ -37,22 +35,19 @@ pub static UK: Language = ("British English", &[(0x23, "£")]);
 pub static DENMARK_I: Language = (
     "Danish Variant I",
     &[
-        (0x40, "Ä"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
-        (0x5E, "^"),
-        (0x60, "ä"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
-        (0x7E, "~"),
     ],
 );
 
 pub static SWEDEN: Language = (
     "Swedish",
     &[
+        (0x24, "¤"),
         (0x40, "É"),
         (0x5B, "Ä"),
         (0x5C, "Ö"),
@@ -69,12 +64,11 @@ pub static SWEDEN: Language = (
 pub static ITALY: Language = (
     "Italian",
     &[
-        (0x40, "§"),
-        (0x5C, "ù"),
-        (0x5E, "é"),
-        (0x60, "à"),
-        (0x7B, "ò"),
-        (0x7C, "ç"),
+        (0x5B, "°"),
+        (0x5D, "é"),
+        (0x60, "ù"),
+        (0x7B, "à"),
+        (0x7C, "ò"),
         (0x7D, "è"),
         (0x7E, "ì"),
     ],
@@ -83,28 +77,27 @@ pub static ITALY: Language = (
 pub static SPAIN_I: Language = (
     "Spanish Variant I",
     &[
-        (0x40, "Ñ"),
+        (0x23, "₧"),
         (0x5B, "¡"),
-        (0x5C, "¿"),
-        (0x5D, "ç"),
-        (0x7B, "ñ"),
-        (0x7C, "¬"),
-        (0x7D, "½"),
-        (0x7E, "¼"),
+        (0x5C, "Ñ"),
+        (0x5D, "¿"),
+        (0x7B, "¨"),
+        (0x7C, "ñ"),
     ],
 );
 
-pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥"), (0x7C, "¦")]);
+pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥")]);
 
 pub static NORWAY: Language = (
     "Norwegian",
     &[
-        (0x40, "Ä"),
+        (0x24, "¤"),
+        (0x40, "É"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
         (0x5E, "Ü"),
-        (0x60, "ä"),
+        (0x60, "é"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
@@ -132,13 +125,12 @@ pub static SPAIN_II: Language = (
     "Spanish Variant II",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "á"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
@@ -148,33 +140,37 @@ pub static LATIN_AMERICA: Language = (
     "Latin",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "é"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x60, "ü"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
 );
 
-pub static KOREA: Language = ("Korean", &[(0x5C, "₩"), (0x7C, "₩")]);
+pub static KOREA: Language = ("Korean", &[(0x5C, "₩")]);
 
 pub static SLOVENIA: Language = (
     "Slovenian",
     &[
+        (0x40, "Ž"),
         (0x5B, "Š"),
         (0x5C, "Đ"),
-        (0x5D, "Č"),
-        (0x7B, "ž"),
+        (0x5D, "Ć"),
+        (0x5E, "Č"),
+        (0x60, "ž"),
+        (0x7B, "š"),
         (0x7C, "đ"),
-        (0x7D, "č"),
+        (0x7D, "ć"),
+        (0x7E, "č"),
     ],
 );
 
-pub static CHINA: Language = ("Chinese", &[(0x5C, "¥")]);
+pub static CHINA: Language = ("Chinese", &[(0x24, "¥")]);
 
 pub static VIETNAM: Language = ("Vietnamese", &[(0x23, "đ")]);
 
-- 
2.43.0


From 26d560b8abd23117bb8c1c4f5365e38292fc1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 36/66] fix: code tables PC850 and PC865 hold their own
 characters

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From d63d19a7b3c68ef6f2db51a1670d78b45d196991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 37/66] fix: long words are broken at the width of the print
 area

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9064ce9..e17b0c6 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -498,7 +498,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From 5f89cf949e7539d4293b6a735b21cbb9162dacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 38/66] fix: a right justified line wider than the print area
 does not underflow

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index e17b0c6..fa31087 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -562,7 +562,7 @@ impl<'a, Output> Renderer<'a, Output> {
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From f61336dee880f4c96063789d70021189903d6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 39/66] fix: a horizontal tab at a tab stop moves to the next
 one

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index fa31087..9e22919 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -479,7 +479,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 let current_x = self.context.get_x();
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-- 
2.43.0


From 8716569e0b717e9fc90df0e021318d818582ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 40/66] fix: tab stops set after a tab do not change where that
 tab goes

---
 thermal_parser/src/commands/set_tab_len.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/set_tab_len.rs b/thermal_parser/src/commands/set_tab_len.rs
index b9a591b..7edd069 100644
--- a/thermal_parser/src/commands/set_tab_len.rs
+++ b/thermal_parser/src/commands/set_tab_len.rs
@@ -27,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Set Tab Len",
         vec![ESC, 'D' as u8],
-        CommandType::TextStyle,
+        CommandType::ContextControl,
         DataType::Double,
         Box::new(Handler {}),
     )
-- 
2.43.0


From 9dede133786e0c5140b97a261216dcee63802f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 41/66] fix: initializing the printer keeps the paper position
 and the nv graphics

---
 thermal_parser/src/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index aa7b3ec..6bc2564 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -1,6 +1,6 @@
 use crate::decoder::{get_codepage, Codepage};
 use crate::graphics;
-use crate::graphics::{GraphicsCommand, ImageRef, RGBA};
+use crate::graphics::{GraphicsCommand, ImageRef, ImageRefStorage, RGBA};
 use crate::text::TextSpan;
 use std::collections::HashMap;
 use std::mem;
@@ -583,7 +583,16 @@ impl Context {
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
+
+            let y = self.graphics.render_area.y;
+            let mut stored_graphics = mem::take(&mut self.graphics.stored_graphics);
+            stored_graphics.retain(|key, _| key.storage == ImageRefStorage::Disc);
+
+            //Only the settings are reset, the paper does not move
+            //back and the non volatile graphics are kept
             self.graphics = default.graphics.clone();
+            self.graphics.render_area.y = y;
+            self.graphics.stored_graphics = stored_graphics;
         }
     }
 
-- 
2.43.0


From 70fbca75d3ed484bdb36564823e2ec3afb6c6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 42/66] fix: initializing the printer returns to standard mode

---
 thermal_parser/src/commands/initialize.rs | 5 ++++-
 thermal_parser/src/context.rs             | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/initialize.rs b/thermal_parser/src/commands/initialize.rs
index 949eb22..ac41a03 100644
--- a/thermal_parser/src/commands/initialize.rs
+++ b/thermal_parser/src/commands/initialize.rs
@@ -7,8 +7,11 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
+        if context.page_mode.enabled {
+            return Some(vec![DeviceCommand::EndPageMode, DeviceCommand::Initialize]);
+        }
         Some(vec![DeviceCommand::Initialize])
     }
     fn apply_context(&self, _command: &Command, context: &mut Context) {
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 6bc2564..4676ccb 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -593,6 +593,11 @@ impl Context {
             self.graphics = default.graphics.clone();
             self.graphics.render_area.y = y;
             self.graphics.stored_graphics = stored_graphics;
+
+            //Leaving page mode is up to the renderer
+            let enabled = self.page_mode.enabled;
+            self.page_mode = default.page_mode.clone();
+            self.page_mode.enabled = enabled;
         }
     }
 
-- 
2.43.0


From 5bfea0ed9bb3542f697ccd1d12cb4d37cd960215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 43/66] fix: upc a data is encoded with the leading zero of its
 ean 13 form

---
 thermal_parser/src/commands/barcode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index b0168c6..260c6f4 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -203,7 +203,9 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //UPC A is encoded as EAN 13 with a leading zero
+                let data_sp = format!("0{}", data.get(..11).unwrap_or(data));
+                return match UPCA::new(data_sp) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From a72ae08a349e55718874e02623db342b2478896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 44/66] fix: a upc a code whose product code does not fit is
 not compressed to upc e

---
 thermal_parser/src/utils/barcodes/upce.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..3d86929 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,7 +199,7 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From 3b2ec32c5efceda61b6c1786938e2cf0a2f69f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 45/66] fix: a 2d code wider than the paper does not lose its
 row breaks

---
 thermal_renderer/src/renderer.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9e22919..de2a4e6 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -321,12 +321,8 @@ impl<'a, Output> Renderer<'a, Output> {
                 context.offset_y(code_2d.point_height as u32);
             }
 
-            if *p > 0 {
-                //Prevent rendering outside of print area
-                if context.get_available_width() < code_2d.point_width as u32 {
-                    continue;
-                }
-
+            //Prevent rendering outside of print area
+            if *p > 0 && context.get_available_width() >= code_2d.point_width as u32 {
                 graphics.push(VectorGraphic::Rectangle(Rectangle {
                     x: context.get_x(),
                     y: context.get_y(),
-- 
2.43.0


From 359421f3399fe225f8ddb93ccbdf42f6de390b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 46/66] fix: printing continues below a 2d code instead of over
 its last row

---
 thermal_renderer/src/renderer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index de2a4e6..e60b2ce 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -337,6 +337,10 @@ impl<'a, Output> Renderer<'a, Output> {
         context.reset_x();
 
         self.renderer.render_graphics(context, &graphics);
+
+        if !code_2d.points.is_empty() {
+            context.offset_y(code_2d.point_height as u32);
+        }
     }
 
     fn process_barcode(&mut self, barcode: &Barcode) {
-- 
2.43.0


From 88dbce454341188c93ce658339b13395cffd1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 47/66] fix: qr data that does not fit the smallest version is
 encoded in a larger one

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..91da98f 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -46,12 +46,6 @@ impl CommandHandler for Handler {
         //Minimum number of modules required to encode the binary length
         let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
         
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
-
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
             QrErrorCorrection::Q => EcLevel::Q,
@@ -59,7 +53,23 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        //The minimum version doesn't account for the error correction level
+        //so larger versions are used until the data fits
+        let encode = |modules: i16| {
+            let version = match &context.code2d.qr_model {
+                QrModel::Model1 => Version::Normal(modules),
+                QrModel::Model2 => Version::Normal(modules),
+                Micro => Version::Micro(modules),
+            };
+            QrCode::with_version(&data, version, error_correction)
+        };
+        let mut modules = min_modules;
+        let mut result = encode(modules);
+
+        while result.is_err() && modules < max_modules {
+            modules += 1;
+            result = encode(modules);
+        }
 
         match result {
             Ok(qr) => {
-- 
2.43.0


From 4079700c8d355a9c712dd460875b54cb3a018130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 48/66] fix: qr data that can not be encoded does not leave the
 previous symbol to print

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 91da98f..ffdb659 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -91,6 +91,7 @@ impl CommandHandler for Handler {
                 context.code2d.symbol_storage = Some(qrcode);
             }
             Err(e) => {
+                context.code2d.symbol_storage = None;
                 println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
             }
         }
-- 
2.43.0


From 2df44f24be03b7cc5f5301c0cc7952fe75b3572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 49/66] fix: dots of 8 dot double density and 24 dot single
 density bit images have the right shape

---
 thermal_parser/src/commands/bit_image.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/bit_image.rs b/thermal_parser/src/commands/bit_image.rs
index 1668742..be3c95f 100644
--- a/thermal_parser/src/commands/bit_image.rs
+++ b/thermal_parser/src/commands/bit_image.rs
@@ -76,11 +76,14 @@ impl CommandHandler for Handler {
             self.capacity = (self.width * self.height) / 8;
         }
 
-        //Image is single density, which oddly enough needs to
-        //have its pixels stretched by 2 on the w and 3 on the h
-        if m == 0 || m == 32 {
-            self.stretch = (2, 3);
-        }
+        //Single density stretches pixels by 2 on the w, 8 dot
+        //modes stretch pixels by 3 on the h
+        self.stretch = match m {
+            0 => (2, 3),
+            1 => (1, 3),
+            32 => (2, 1),
+            _ => (1, 1),
+        };
 
         //After this, we accept data until the capacity is met
         self.accept_data = true;
-- 
2.43.0


From be552ce7abb6d3857753908ac6b047e11e4fd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 50/66] fix: the size of an image does not overflow

---
 thermal_parser/src/graphics.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..da30b10 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -246,10 +246,10 @@ impl GraphicsCommand {
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        if unpacked.len() != width as usize * height as usize {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                width as usize * height as usize,
                 unpacked.len()
             ));
         }
@@ -376,7 +376,7 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 /// Unpacks bits into bytes and makes sure that extra padding
 /// is added for widths that are not divisible by eight.
 fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let mut bytes = Vec::with_capacity(width as usize * height as usize);
+    let mut bytes = Vec::with_capacity(pixels.len() * 8);
 
     //number of bytes we need to use for the last column of each row of data
     let mut padding = width % 8;
@@ -462,17 +462,17 @@ pub fn scale_pixels(
     let new_width = original_width * scale_x as u32;
     let new_height = original_height * scale_y as u32;
 
-    let mut scaled_bytes = vec![0u8; (new_width * new_height) as usize];
+    let mut scaled_bytes = vec![0u8; new_width as usize * new_height as usize];
 
     for y in 0..original_height {
         for x in 0..original_width {
-            let pixel = bytes[(y * original_width + x) as usize];
+            let pixel = bytes[y as usize * original_width as usize + x as usize];
 
             for dy in 0..scale_y {
                 for dx in 0..scale_x {
                     let new_x = x * scale_x as u32 + dx as u32;
                     let new_y = y * scale_y as u32 + dy as u32;
-                    scaled_bytes[(new_y * new_width + new_x) as usize] = pixel;
+                    scaled_bytes[new_y as usize * new_width as usize + new_x as usize] = pixel;
                 }
             }
         }
-- 
2.43.0


From 873f7347f71bdf6b996734e651b5a9d8d764aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 51/66] fix: stored graphics whose width is not a multiple of 8
 are decoded

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index da30b10..d880ed9 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -296,7 +296,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            (width.div_ceil(8) as usize * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
-- 
2.43.0


From 0ac8b2ef103d110d660d405ca5306a11a1fff31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 52/66] fix: stored column graphics are decoded as columns

---
 thermal_parser/src/graphics.rs                            | 8 ++++----
 .../gs_graphics/define_download_graphics_column.rs        | 3 +--
 .../subcommands/gs_graphics/define_nv_graphics_column.rs  | 3 +--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index d880ed9..02979da 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -191,20 +191,20 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        let bytes_per_layer = (width as usize * height.div_ceil(8) as usize) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
+        if data.len() != bytes_per_layer * num_colors as usize {
             return GraphicsCommand::Error("Not enough data to parse raster image".into());
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
+        for layer in 0..num_colors as usize {
             let layer_start = layer * bytes_per_layer;
             let color_number = data[layer_start];
             let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
+            let image_data = &data[layer_start + 1..layer_start + bytes_per_layer];
             let raster = column_to_bytes(image_data, width, height);
             let layer = Self::image_from_raster_bytes_single_color(
                 width, height, stretch, color, flow, &raster, false,
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 40b6b61..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -30,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index ebf7478..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -30,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From a1b61a3e71dd8f2b0c8e5cb28bc501756369de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 53/66] fix: smaller image layers are not skewed when merged

---
 thermal_parser/src/graphics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 02979da..cc0d248 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -365,8 +365,10 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
             return Err("Can't merge image layers with different w and h".into());
         }
 
+        let (w, base_w) = (merge_img.w as usize, image.w as usize);
+
         for i in 0..merge_img.pixels.len() {
-            image.pixels[i].blend_foreground(&merge_img.pixels[i]);
+            image.pixels[i / w * base_w + i % w].blend_foreground(&merge_img.pixels[i]);
         }
     }
 
-- 
2.43.0


From e3c3c16baa38d4e24e04be1d22c9e78be8f918b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 54/66] fix: column graphics with too little data are an error
 instead of a crash

---
 thermal_parser/src/graphics.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index cc0d248..fe746b0 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -166,6 +166,11 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
+        //Ensure there are enough bytes to construct the final image
+        if data.len() != width as usize * height.div_ceil(8) as usize {
+            return GraphicsCommand::Error("Not enough data to parse column image".into());
+        }
+
         let raster = column_to_bytes(data, width, height);
         Self::image_from_raster_bytes_single_color(
             width, height, stretch, color, flow, &raster, false,
-- 
2.43.0


From 67203ea02d87483427dbe524c19532e889b7414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 55/66] fix: data of an unsupported 2d symbology replaces the
 stored symbol

---
 thermal_parser/src/subcommands/gs_code2d/aztec_store.rs     | 6 +++---
 thermal_parser/src/subcommands/gs_code2d/composite_store.rs | 6 +++---
 .../src/subcommands/gs_code2d/datamatrix_store.rs           | 6 +++---
 thermal_parser/src/subcommands/gs_code2d/gs1_store.rs       | 6 +++---
 thermal_parser/src/subcommands/gs_code2d/maxi_store.rs      | 6 +++---
 thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs    | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs b/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
index d112b70..bda1bab 100644
--- a/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
@@ -4,9 +4,9 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
-        //TODO No support for this yet
-        //context.code2d.symbol_storage = Some(Cod2D)
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
+        //TODO No support for this yet, the data still replaces the stored symbol
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_store.rs b/thermal_parser/src/subcommands/gs_code2d/composite_store.rs
index 8d05648..c46f0c5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_store.rs
@@ -4,9 +4,9 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
-        //TODO No support for this yet
-        //context.code2d.symbol_storage = Some(Cod2D)
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
+        //TODO No support for this yet, the data still replaces the stored symbol
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
index 57f382c..36c965f 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
@@ -4,9 +4,9 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
-        //TODO No support for this yet
-        //context.code2d.symbol_storage = Some(Cod2D)
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
+        //TODO No support for this yet, the data still replaces the stored symbol
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs b/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
index c62f14f..ed150e1 100644
--- a/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
@@ -4,9 +4,9 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
-        //TODO No support for this yet
-        //context.code2d.symbol_storage = Some(Cod2D)
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
+        //TODO No support for this yet, the data still replaces the stored symbol
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
index 79cb4dc..a9f8cad 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
@@ -4,9 +4,9 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
-        //TODO No support for this yet
-        //context.code2d.symbol_storage = Some(Cod2D)
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
+        //TODO No support for this yet, the data still replaces the stored symbol
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
index 0d91b52..55b518e 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
@@ -4,9 +4,9 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
-        //TODO No support for this yet
-        //context.code2d.symbol_storage = Some(Cod2D)
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
+        //TODO No support for this yet, the data still replaces the stored symbol
+        context.code2d.symbol_storage = None;
     }
 }
 
-- 
2.43.0


From dc6b1ba9d448bfe6ceb346a3de43bb48a1135fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 56/66] fix: a qr code holds the data without the parameter
 before it

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index ffdb659..42f5246 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -34,7 +34,8 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
+        //The first byte is the parameter m, the symbol data follows it
+        let data = command.data.get(1..).unwrap_or(&[]).to_owned();
         
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
-- 
2.43.0


From 6db5fb6ab92c0e65952203b4370826c473fd8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 57/66] fix: content too high for the page is cut off at the
 page border

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..71fdada 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -526,7 +526,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From b7ff8b0b24826cedc1e7e5f7e07349920b1b42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 58/66] fix: content of a page stays in place when the page
 gets wider

---
 thermal_renderer/src/image_renderer/mod.rs     |  2 +-
 .../src/image_renderer/thermal_image.rs        | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..df27d39 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -105,7 +105,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
         }
 
         if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
+            self.page_image.expand_right(width);
         }
         if height > self.page_image.get_height() {
             self.page_image.expand_to_height(height);
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 71fdada..f88576c 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -668,6 +668,24 @@ impl ThermalImage {
         self.width = new_width;
     }
 
+    /// Adds paper to the right side only, existing pixels keep their position
+    pub fn expand_right(&mut self, new_width: u32) {
+        if new_width <= self.width {
+            return;
+        };
+        let old_width = self.width as usize;
+        let height = self.get_height() as usize;
+        let mut bytes = Vec::<RGBA>::with_capacity(height * new_width as usize);
+
+        for y in 0..height {
+            bytes.extend_from_slice(&self.bytes[y * old_width..(y + 1) * old_width]);
+            bytes.resize((y + 1) * new_width as usize, self.paper_color);
+        }
+
+        self.bytes = bytes;
+        self.width = new_width;
+    }
+
     pub fn consume_rgb_u8(&mut self) -> (u32, u32, Vec<u8>) {
         let w = self.width;
         let h = self.get_height();
-- 
2.43.0


From 2bbe54cd9cab588fbfc5d628d98fa764ceafa5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 59/66] fix: html output of an image without any dots is no
 longer a crash

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..185faea 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -7,6 +7,15 @@ use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
 
 pub fn encode_html_image(image: &Image) -> HtmlRow {
+    // There is no png without any pixels
+    if image.w == 0 || image.h == 0 {
+        return HtmlRow {
+            y: image.y,
+            height: image.h,
+            content: "".to_string(),
+        };
+    }
+
     // Create a buffer to hold the PNG image data
     let mut png_data: Vec<u8> = Vec::new();
     let image_data: Vec<u8> = image.as_rgba_u8();
-- 
2.43.0


From 5f3341440311c38e2b734e302dae261f08916236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 60/66] fix: html page content stays in place when the page
 gets wider

---
 thermal_renderer/src/html_renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..9c3f514 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -142,7 +142,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         }
 
         if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
+            self.page_image.expand_right(width)
         }
         if height > self.page_image.get_height() {
             self.page_image.expand_to_height(height)
-- 
2.43.0


From e554ec722a90ee1f9d3b9454f38d208d42dcbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:32 +0000
Subject: [PATCH 61/66] fix: text is escaped in html output

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 185faea..53ccf80 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -229,11 +229,18 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+// Characters that are markup in html are replaced with their entities
+fn escape_html(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From 81502040c476fc34244b7add303855c15ef2101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 62/66] fix: receipt text that looks like a template
 placeholder stays text

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 9c3f514..29129d6 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -259,7 +259,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -269,7 +268,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            //Content comes last so that nothing gets replaced in it
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From 3aaf7e371374a36ba28c6c24fc43a3e0bc647071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 63/66] fix: control characters other than LF were lost when
 written as a thermal file

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..14b9dda 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -214,6 +214,11 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return "LF \n".to_string();
         }
 
+        //Other control characters
+        if !commands.is_empty() {
+            return format!("{}\n", explain_command(&commands));
+        }
+
         let text = String::from_utf8_lossy(data.as_slice());
         return format!("\"{}\"\n", text);
     } else if cmd.kind == CommandType::Unknown {
-- 
2.43.0


From b29db4d8018be5005549a2f05f767af074f92688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 64/66] fix: quotes, backslashes and bytes that are not UTF-8
 in text were changed when written as a thermal file

---
 thermal_parser/src/thermal_file.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index 14b9dda..776800b 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -219,8 +219,17 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return format!("{}\n", explain_command(&commands));
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        return match std::str::from_utf8(data.as_slice()) {
+            Ok(text) => {
+                let escaped = text.replace('\\', "\\\\").replace('"', "\\\"");
+                format!("\"{}\"\n", escaped)
+            }
+            //Not expressible as a string
+            Err(_) => {
+                let hex: Vec<String> = data.iter().map(|b| format!("0x{:02X}", b)).collect();
+                format!("{}\n", hex.join(" "))
+            }
+        };
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
-- 
2.43.0


From 8182bea1391432266b35e8d3a2cc7af8784eae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 65/66] fix: escaped backslashes before a quote or another
 escape were misread in thermal files

---
 thermal_parser/src/thermal_file.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index 776800b..bc0282d 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -78,9 +78,22 @@ pub fn parse_str(text: &str) -> Vec<u8> {
                     }
                     //raw strings start with quote
                     else if token.starts_with('"') {
-                        let unescaped = token.replace("\\\\", "\\").replace("\\\"", "\"");
-                        for byte in unescaped[1..].as_bytes() {
-                            parsed.push(*byte);
+                        let mut escaped = false;
+                        for byte in token[1..].bytes() {
+                            if escaped {
+                                escaped = false;
+                                //Only quotes and backslashes can be escaped
+                                if byte != b'\\' && byte != b'"' {
+                                    parsed.push(b'\\');
+                                }
+                            } else if byte == b'\\' {
+                                escaped = true;
+                                continue;
+                            }
+                            parsed.push(byte);
+                        }
+                        if escaped {
+                            parsed.push(b'\\');
                         }
                     }
                     //Decimal
-- 
2.43.0


From 7d206bb0fd00c30f64cec80c5b7b90a6b9ac7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 66/66] fix: a value directly followed by a quoted string was
 lost in thermal files

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index bc0282d..dde2f99 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -168,6 +168,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
 
         //Start gobbling quoted string
         if c == '"' {
+            //See if there is a token to push
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1])
+            }
+
             gobble_quoted = true;
             esc_quoted = false;
 
-- 
2.43.0

