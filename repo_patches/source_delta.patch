From 129d376a0bd147ffa44aa9998622f25bb2774aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 01/16] fix: reject cels whose layer index equals the layer
 count

The bounds check was off by one, so such a file panicked on the
following index expression instead of returning LayerIndexOutOfBounds.
---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From 809785b6a585496617c0fa9303cdfb837f040eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 02/16] fix: reject properties maps with a size below 8 instead
 of underflowing

---
 src/binary/chunks/user_data.rs | 8 ++++++--
 src/binary/errors.rs           | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..bdcef31 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -144,8 +144,12 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes both the size and the count field. Smaller
+    // values are invalid and must not underflow.
+    let size_maps = size_maps
+        .checked_sub(8)
+        .ok_or(nom::Err::Failure(ParseError::InvalidPropertiesSize))?;
+    let (input, input_maps) = take(size_maps)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index ce6dced..8d2c65c 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -31,6 +31,9 @@ pub enum ParseError<'a> {
     /// This variant is used when a unsupported property
     /// type is found in the user data.
     InvalidPropertyType(Word),
+    /// This variant is used when the size of the properties
+    /// maps found in the user data is <8
+    InvalidPropertiesSize,
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0


From 8c5c8ec32ac93e4f3907b12ea05f02cfb81ad9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 03/16] fix: return the image error from render_frame instead
 of panicking

A cel with corrupt pixel data made render_frame panic.
---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..849354a 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From a14a1e787e7a93da02c93dec68e8385b21d762fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 04/16] fix: report raw RGBA cels of the wrong length instead
 of panicking

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 849354a..ec859a4 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if image.data.len() != target.len() {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From 1c7b880010179964a23b6540c9d646a83f9bd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 05/16] fix: return an error for layers with an unknown blend
 mode

render_frame used to panic when it encountered such a layer.
---
 src/loader/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index ec859a4..334decd 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,6 +311,9 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
+            if let BlendMode::Unknown(_) = layer.blend_mode {
+                return Err(LoadImageError::UnsupportedBlendMode);
+            }
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
 
             for y in 0..cel.size.1 {
@@ -441,6 +444,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// The layer uses an unknown blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From 577428b6b2c6ec2993b6b1cd272009f47729e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 06/16] fix: use normalized components in the HSL blend modes

The HSL math works on components in the range 0..=1 but was fed with
0..=255. The result did not fit into a color and hit the debug assertions
(or wrapped around in release builds).
---
 src/loader/blend.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..042de0c 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,16 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
+        f64::from(self.b) / 255.0
     }
     fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.a) / 255.0
     }
 }
 
@@ -90,10 +90,10 @@ impl From<&[f64]> for Color {
         debug_assert!(value.len() == 4);
         Self::from(
             [
-                (value[0] * 255.0) as i32,
-                (value[1] * 255.0) as i32,
-                (value[2] * 255.0) as i32,
-                (value[3] * 255.0) as i32,
+                i32::from((value[0] * 255.0) as u8),
+                i32::from((value[1] * 255.0) as u8),
+                i32::from((value[2] * 255.0) as u8),
+                i32::from((value[3] * 255.0) as u8),
             ]
             .as_slice(),
         )
-- 
2.43.0


From 6d586fbcdec09e500d1af9b52b4bbf677c1382a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 07/16] fix: use the blue channel of the front color for soft
 light

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 042de0c..47d7a9e 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From e1dea0b29714aa60792e6cab648dc0b19afebd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 08/16] fix: keep the raw value of the first unknown code

The derived from_repr returned Unknown(0) for the code directly after the
last known one as the Unknown variant has an implicit discriminant.
---
 src/binary/blend_mode.rs            | 1 +
 src/binary/chunks/cel.rs            | 1 +
 src/binary/chunks/color_profile.rs  | 1 +
 src/binary/chunks/external_files.rs | 1 +
 src/binary/chunks/tags.rs           | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..29f9a6d 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -26,6 +26,7 @@ pub enum BlendMode {
     Addition,
     Subtract,
     Divide,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..d6595ca 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -37,6 +37,7 @@ enum CelType {
     CompressedImage,
     /// 3 - Compressed Tilemap
     CompressedTilemap,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..e3658e7 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -22,6 +22,7 @@ pub enum ColorProfileType {
     NoColorProfile,
     Srgb,
     EmbeddedICC,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..ede2b17 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -29,6 +29,7 @@ pub enum ExternalFileType {
     ExternalPalette,
     ExternalTileset,
     ExtensionNameForProperties,
+    #[strum(disabled)]
     Unknown(Byte),
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..fe39017 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -33,6 +33,7 @@ pub enum AnimationDirection {
     Reverse,
     PingPong,
     PingPongReverse,
+    #[strum(disabled)]
     Unknown(Byte),
 }
 
-- 
2.43.0


From 3c359b82539902aac0a810646d797ee54739645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 09/16] fix: read the tilemap flip masks in the order of the
 specification

---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index d6595ca..8db9d9f 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -118,8 +118,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From dc33ee169c0ef1f7463cf3d268c4e4c9168cf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 10/16] fix: use the values of the specification for the layer
 flags

The specification lists the flags as decimal numbers.
---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..843c0e5 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 16;
+        const COLLAPSED = 32;
+        const REFERENCE = 64;
     }
 }
 
-- 
2.43.0


From c553dac4172cf1ace028a0f8f3a1737fab21f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 11/16] fix: scale the 6-bit colors of 0x0011 palette chunks

---
 src/binary/palette.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..d026337 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            false,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            true,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -97,9 +107,20 @@ fn process_palette_chunks(
     }
 }
 
+/// Color components of the 0x0011 palette chunks range from 0 to 63.
+fn scale_component(value: u8, six_bit: bool) -> u8 {
+    if six_bit {
+        let value = value.min(63);
+        (value << 2) | (value >> 4)
+    } else {
+        value
+    }
+}
+
 fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
+    six_bit: bool,
     palette: &mut Palette,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
@@ -112,9 +133,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale_component(color.red, six_bit),
+                    green: scale_component(color.green, six_bit),
+                    blue: scale_component(color.blue, six_bit),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0


From bbabd401b36edc31d1991a1c8a1a6b3435597b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 12/16] fix: read as many palette entries as there are indices
 in the chunk

The parser used the size of the entire palette and thus failed to load
files with a chunk which only changes a part of the palette.
---
 src/binary/chunks/palette.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..4bbe200 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -30,7 +30,9 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    // This is the size of the entire palette. The chunk itself only
+    // contains the entries from the first to the last color index.
+    let (input, _palette_size) = parse_dword_as_usize(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +47,8 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    let entry_count = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, entry_count).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From 8f9db97d1872d034c7769f143863b3cac496636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 13/16] fix: nested properties maps do not start with an
 extension entry ID

---
 src/binary/chunks/user_data.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index bdcef31..de75360 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -169,6 +169,20 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
     ))
 }
 
+/// Properties maps which are nested in a value do not have an
+/// extension entry ID. It is always set to 0 (user properties).
+pub fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, num_props) = parse_dword_as_usize(input)?;
+    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id: 0,
+            properties,
+        },
+    ))
+}
+
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
     let (input, value) = parse_value(input)?;
@@ -199,7 +213,7 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
         PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
         PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
@@ -239,7 +253,7 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
             map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(parse_nested_properties_map, len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From d648cbaf974e724372357867129c2f7de92a6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 14/16] fix: cels refer to the wrong layer if the file contains
 skipped layers

Layers which are neither normal nor group layers are not part of
AsepriteFile::layers but the layer index of the cels was not adjusted.
---
 src/loader/mod.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 334decd..e89718a 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -131,23 +131,25 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
-        let layers: Vec<_> = file
-            .layers
-            .iter()
-            .filter_map(|layer| {
-                if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
-                    Some(Layer {
-                        name: layer.name.to_string(),
-                        opacity: layer.opacity,
-                        blend_mode: layer.blend_mode,
-                        visible: layer.flags.contains(LayerFlags::VISIBLE),
-                        layer_type: layer.layer_type,
-                    })
-                } else {
-                    None
-                }
-            })
-            .collect();
+        let mut layers: Vec<Layer> = Vec::new();
+        // Layers of other types are skipped. This maps the layer index used
+        // inside the file to the index in `layers`.
+        let mut layer_indices: Vec<Option<usize>> = Vec::new();
+
+        for layer in file.layers.iter() {
+            if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
+                layer_indices.push(Some(layers.len()));
+                layers.push(Layer {
+                    name: layer.name.to_string(),
+                    opacity: layer.opacity,
+                    blend_mode: layer.blend_mode,
+                    visible: layer.flags.contains(LayerFlags::VISIBLE),
+                    layer_type: layer.layer_type,
+                });
+            } else {
+                layer_indices.push(None);
+            }
+        }
 
         let mut image_vec: Vec<Image<'_>> = Vec::new();
         let mut image_map: HashMap<(usize, usize), usize> = HashMap::new();
@@ -197,12 +199,15 @@ impl AsepriteFile<'_> {
                         })
                     }
                 };
+                let Some(layer_index) = layer_indices[usize::from(cel.layer_index)] else {
+                    continue;
+                };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
-                    layer_index: cel.layer_index.into(),
+                    layer_index,
                     image_index,
                 });
             }
-- 
2.43.0


From 32daea5d34983f61cf56ac4506f474e52d300452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 15/16] fix: report compressed image data which does not fill
 the target

---
 src/loader/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index e89718a..eff81ff 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -467,6 +467,10 @@ pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError>
     let mut decompressor = Decompress::new(true);
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
+        // A stream which is too short leaves a part of the target untouched.
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() != target.len() as u64 => {
+            Err(LoadImageError::InvalidImageData)
+        }
         Ok(flate2::Status::StreamEnd) => Ok(()),
         Err(_) => Err(LoadImageError::DecompressError),
     }
-- 
2.43.0


From e9e0e96d6cf9b0b22232d29d343ef1d2991348d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 16/16] fix: limit the nesting depth of user data values

Deeply nested vectors and properties maps overflowed the stack of the
recursive parser which aborts the process.
---
 src/binary/chunks/user_data.rs | 66 ++++++++++++++++++++++++++--------
 src/binary/errors.rs           |  3 ++
 2 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index de75360..cc79ec8 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -19,6 +19,10 @@ use crate::binary::{
     },
 };
 
+/// Vectors and properties maps can be nested. The parser is recursive
+/// and this limit prevents malicious files from overflowing the stack.
+const MAX_NESTING_DEPTH: usize = 64;
+
 bitflags! {
     pub struct UserDataFlags: Dword {
         const HAS_TEXT = 0x1;
@@ -158,8 +162,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) = properties_at(input, 0)?;
     Ok((
         input,
         PropertiesMap {
@@ -169,11 +172,15 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
     ))
 }
 
+fn properties_at(input: &[u8], depth: usize) -> ParseResult<'_, Vec<Property<'_>>> {
+    let (input, num_props) = parse_dword_as_usize(input)?;
+    count(|input| property_at(input, depth), num_props).parse(input)
+}
+
 /// Properties maps which are nested in a value do not have an
 /// extension entry ID. It is always set to 0 (user properties).
-pub fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
-    let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+fn nested_properties_map_at(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = properties_at(input, increase_depth(depth)?)?;
     Ok((
         input,
         PropertiesMap {
@@ -184,12 +191,28 @@ pub fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMa
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    property_at(input, 0)
+}
+
+fn property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
+fn increase_depth<'a>(depth: usize) -> Result<usize, nom::Err<ParseError<'a>>> {
+    if depth < MAX_NESTING_DEPTH {
+        Ok(depth + 1)
+    } else {
+        Err(nom::Err::Failure(ParseError::NestingTooDeep))
+    }
+}
+
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    value_at(input, 0)
+}
+
+fn value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -211,19 +234,30 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
-        PropertyType::PropertiesMap => {
-            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
-        }
+        PropertyType::Vector => map(|input| vector_at(input, depth), Value::Vector).parse(input)?,
+        PropertyType::PropertiesMap => map(
+            |input| nested_properties_map_at(input, depth),
+            Value::PropertiesMap,
+        )
+        .parse(input)?,
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    vector_at(input, 0)
+}
+
+fn vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    let depth = increase_depth(depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -249,11 +283,13 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| vector_at(input, depth), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_nested_properties_map, len_elements),
+            count(|input| nested_properties_map_at(input, depth), len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 8d2c65c..e5f8586 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -34,6 +34,9 @@ pub enum ParseError<'a> {
     /// This variant is used when the size of the properties
     /// maps found in the user data is <8
     InvalidPropertiesSize,
+    /// This variant is used when the vectors and properties maps
+    /// found in the user data are nested too deeply.
+    NestingTooDeep,
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0

