From 2c3c0c6e43fadd5900f51ba58c5f02da07c92a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 01/21] fix: default literals above i32::MAX were truncated
 when set through the setter

---
 .../generating/bitfield/features/common/generator_helper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..318ba03 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -592,8 +592,12 @@ fn generate_field_setter_call_tokens(
                     #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens);
                 }
             } else {
+                // Cast to the field type instead of `_`, an inferred cast makes large
+                // literals fallback to `i32`, truncating them.
+                let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens as _);
+                    #[allow(clippy::unnecessary_cast)]
+                    #bitfield_variable_reference.#field_setter_ident_tokens((#value_tokens) as #field_data_type_tokens);
                 }
             }
         },
-- 
2.43.0


From fefe03d455246f9435b72632889af68379e18833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:17 +0000
Subject: [PATCH 02/21] fix: negative and typed-constant defaults of fields
 without a setter did not compile

---
 .../features/common/generator_helper.rs       | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 318ba03..23567de 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -677,8 +677,11 @@ fn generate_setting_field_without_setter_tokens(
             DataType::Custom => quote! {
                 #value_tokens.into_bits() as u128
             },
-            _ => quote! {
-                #value_tokens as u128
+            _ => {
+                let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+                quote! {
+                    ((#value_tokens) as #field_data_type_tokens) as u128
+                }
             },
         };
 
@@ -721,9 +724,20 @@ fn generate_setting_field_without_setter_tokens(
         };
     }
 
+    // Integer values go through the field type first, so negative values and
+    // typed constants are accepted.
+    let field_value_tokens = match field.spanned_data_type_token().data_type() {
+        DataType::Integer(_) => {
+            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            quote! { ((#value_tokens) as #field_data_type_tokens) }
+        },
+        _ => quote! { (#value_tokens) },
+    };
+
     quote! {
         let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
-        let field_bits = #value_tokens;
+        #[allow(clippy::unnecessary_cast)]
+        let field_bits = #field_value_tokens as #bitfield_data_type_tokens;
         #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << #field_offset_tokens)) | ((field_bits & mask) << #field_offset_tokens);
     }
 }
-- 
2.43.0


From c1ad0f5e6b5952ad8dd2cea845c181b79e5d0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 03/21] fix: checked setters accepted values whose high bits
 were lost by the cast to the bitfield type

---
 .../features/common/generator_helper.rs       | 53 +++++++++++++++++--
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 23567de..283f851 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -244,15 +244,34 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let is_custom_field = matches!(field.spanned_data_type_token().data_type(), DataType::Custom);
+
+    let pre_extract_check_tokens = (!using_setter && check_bit_size).then(|| {
+        if is_signed_integer {
+            generate_signed_bit_size_check_tokens(field)
+        } else if bitfield.is_integer_backed()
+            && !is_custom_field
+            && !is_bool_field
+            && !is_array_field
+        {
+            generate_unsigned_bit_size_check_tokens(field)
+        } else {
+            TokenStream::new()
+        }
+    });
 
     let post_extract_check_tokens = (!using_setter
         && check_bit_size
         && !is_signed_integer
         && !is_bool_field
         && !is_array_field)
-        .then(generate_bit_size_check_tokens);
+        .then(|| {
+            if bitfield.is_integer_backed() && is_custom_field {
+                generate_custom_bit_size_check_tokens()
+            } else {
+                generate_bit_size_check_tokens()
+            }
+        });
 
     let extract_field_bits_into_variable_tokens =
         generate_extract_field_bits_from_source_into_variable_tokens(
@@ -344,6 +363,31 @@ fn generate_bit_size_check_tokens() -> TokenStream {
     }
 }
 
+/// Generates an overflow check for unsigned integer fields.
+/// Must run before `bits` is narrowed to the bitfield type.
+fn generate_unsigned_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+    let field_bits = field.bits();
+
+    quote! {
+        if bits > (#field_data_type_tokens::MAX >> (#field_data_type_tokens::BITS - #field_bits)) {
+            return Err("Value is too big to fit within the field bits.");
+        }
+    }
+}
+
+/// Generates an overflow check for custom fields of integer-backed bitfields,
+/// also rejecting bits lost by narrowing to the bitfield type.
+fn generate_custom_bit_size_check_tokens() -> TokenStream {
+    quote! {
+        // The array makes `_` the custom type's own bits type.
+        let [original_bits, narrowed_bits] = [custom_bits, bits as _];
+        if bits > mask || narrowed_bits != original_bits {
+            return Err("Value is too big to fit within the field bits.");
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
@@ -419,8 +463,9 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
+                                let custom_bits = bits.into_bits();
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = custom_bits as #bitfield_data_type_tokens;
                             }
                         } else if let DataType::Array {
                             length,
-- 
2.43.0


From 65955d0969a9112d4e103cbafa945b47b3fc55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 04/21] fix: the last partial byte of array fields in integer
 bitfields was dropped

---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 283f851..88579a9 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -472,7 +472,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = (field.bits() as usize).div_ceil(8).min(len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-- 
2.43.0


From 2f5eca486366f50ac13e9e6312e2b8cf91f1ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:59 +0000
Subject: [PATCH 05/21] fix: array fields longer than 16 bytes overflowed a
 shift in integer bitfields

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 +++-
 .../src/generating/bitfield/features/field_getters_feature.rs | 4 +++-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 88579a9..c331ae9 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -655,13 +655,15 @@ fn generate_field_setter_call_tokens(
             length,
         } => {
             let len = length as usize;
+            // A `u128` holds 16 bytes, the rest of the array stays zero.
+            let unpack_len = len.min(16);
             if bitfield.is_integer_backed() {
                 quote! {
                     #bitfield_variable_reference.#field_setter_ident_tokens({
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #unpack_len {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..989fa28 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -94,13 +94,15 @@ impl FieldGettersFeature {
                 length,
             } => {
                 let len = length as usize;
+                // A `u128` holds 16 bytes, the rest of the array stays zero.
+                let unpack_len = len.min(16);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..e815522 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -194,13 +194,15 @@ impl InvertBitOpsFeature {
                 length,
             } => {
                 let len = length as usize;
+                // A `u128` holds 16 bytes, the rest of the array stays zero.
+                let unpack_len = len.min(16);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From 8f2a1a061fdd7ef302bb17152aff57baf0a5be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 06/21] fix: checked setters of array fields accepted values
 wider than the field

---
 .../features/common/generator_helper.rs       | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index c331ae9..a4a54a4 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -249,10 +249,11 @@ pub fn generate_setting_field_from_variable_tokens(
     let pre_extract_check_tokens = (!using_setter && check_bit_size).then(|| {
         if is_signed_integer {
             generate_signed_bit_size_check_tokens(field)
+        } else if is_array_field {
+            generate_array_bit_size_check_tokens(field)
         } else if bitfield.is_integer_backed()
             && !is_custom_field
             && !is_bool_field
-            && !is_array_field
         {
             generate_unsigned_bit_size_check_tokens(field)
         } else {
@@ -388,6 +389,27 @@ fn generate_custom_bit_size_check_tokens() -> TokenStream {
     }
 }
 
+/// Generates an overflow check for array fields, the array bits past the
+/// field's bit-width must be zero.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        let mut __i: u32 = #field_bits;
+        while __i < #type_bits {
+            if (bits[(__i / 8) as usize] >> (__i % 8)) & 1 != 0 {
+                return Err("Value is too big to fit within the field bits.");
+            }
+            __i += 1;
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
-- 
2.43.0


From bd43d18285e2e8d4569240673c545e6760fff16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 07/21] fix: range bit operations overflowed on huge and zero
 lengths

---
 .../bitfield/features/set_get_bit_ops_feature.rs       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..330cf0f 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -130,7 +130,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    let range_mask = (if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) }) << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +145,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -326,7 +326,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +341,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -475,7 +475,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From eda63b7075bea4e67bf0b5fe605ed0d3bef149b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:35 +0000
Subject: [PATCH 08/21] fix: checked range setters accepted values too large
 for the length

---
 .../bitfield/features/set_get_bit_ops_feature.rs     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 330cf0f..6b01340 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -91,6 +91,8 @@ impl SetGetBitOpsFeature {
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::ReadOnly);
 
+        let bitfield_bits = bitfield.spanned_data_type_token().data_type().bit_size();
+
         if bitfield.is_integer_backed() {
             quote! {
                 #[doc = "Sets a bit in the bitfield."]
@@ -151,6 +153,9 @@ impl SetGetBitOpsFeature {
                     if range_mask & protected_mask != 0 {
                         return Err("Attempted to write to non-writable bit(s).");
                     }
+                    if value > mask {
+                        return Err("The value is too large for the length.");
+                    }
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << offset)) | ((value & mask) << offset);
                     Ok(())
                 }
@@ -239,6 +244,13 @@ impl SetGetBitOpsFeature {
                         i += 1;
                     }
                     let mut i = 0u32;
+                    while i < #bitfield_bits {
+                        if i >= length && (value[(i / 8) as usize] >> (i % 8)) & 1 != 0 {
+                            return Err("The value is too large for the length.");
+                        }
+                        i += 1;
+                    }
+                    let mut i = 0u32;
                     while i < length {
                         let bit_val = ((value[(i / 8) as usize] >> (i % 8)) & 1) != 0;
                         let dst_bit = offset + i;
-- 
2.43.0


From 8d4c3b4bdc48dfc84cc6cae78520d4d9680d4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:39 +0000
Subject: [PATCH 09/21] fix: inverted getters of signed fields were not
 sign-extended

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index e815522..85f62c6 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -167,11 +167,13 @@ impl InvertBitOpsFeature {
                         /* invert_bits= */ true,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 quote! {
                     #[doc = #documentation]
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From fa6ed6d0704618561b58e114b72db91a674125cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:02 +0000
Subject: [PATCH 10/21] fix: Debug printed the raw bits of signed fields
 instead of their value

---
 .../src/generating/bitfield/features/debug_trait_feature.rs   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index ca46d0d..90aa3f2 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -4,6 +4,7 @@ use quote::quote;
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
+    generate_sign_extend_bit_operation_tokens,
 };
 use crate::parsing::bitfields::bitfield::Bitfield;
 
@@ -63,8 +64,11 @@ impl DebugTraitFeature {
                         /* builder_caller= */ false,
                     );
 
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
+
                 quote! {
                     #extract_field_bits_from_bitfield_into_variable
+                    #sign_extend_tokens
                     debug.field(#field_name, &value);
                 }
             })
-- 
2.43.0


From 11f129560a785e7a1f00dfc7aba2d72f6f938eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:01 +0000
Subject: [PATCH 11/21] fix: write_bit_ops argument was ignored, write
 operations followed bit_ops only

---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From cc1ed97b715704efd78310906ef0b48174849d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:26 +0000
Subject: [PATCH 12/21] fix: the smallest i128 default value made the macro
 panic

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..f481d36 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -323,10 +323,8 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
+        // `i128::MIN` is its own wrapping negation, and the compiler rejects anything below it.
+        let negative_default_value = (*number as i128).wrapping_neg();
 
         if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From b8dee7ba046b24ff5b6f4ab890a89197f45f5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:44 +0000
Subject: [PATCH 13/21] fix: raw identifiers as field names made the macro
 panic

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..74784aa 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From 1ae0ea42e1c81d04c903e238596ad37c50ae06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 14/21] fix: array fields wider than their array were accepted
 and panicked when used

---
 .../src/parsing/bitfields/bitfield_parser.rs         |  6 +++++-
 .../src/parsing/common/spanned_data_type.rs          | 12 ------------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index f481d36..a0724b6 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -13,6 +13,7 @@ use crate::parsing::bitfields::bits_attribute::bits_attribute_parser::BitsAttrib
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, SpannedDataTypeToken};
+use crate::parsing::common::to_tokens::ToTokens;
 use crate::parsing::common::type_parse_error::TypeParsingError;
 use crate::parsing::common::visibility::Visibility;
 
@@ -124,6 +125,9 @@ fn parse_field_helper(
 
     if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    }
+
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_field_data_type_can_hold_bits(
             bits_attribute.as_ref(),
             bits,
@@ -359,7 +363,7 @@ fn check_field_data_type_can_hold_bits(
     };
 
     let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
+    let spanned_data_type_tokens = spanned_data_type_token.to_tokens();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..b97b4fa 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -124,18 +124,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From 2e98737406e22a46511e29182a8a5a72dbeb7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 15/21] fix: builders of bitfields without new functions did
 not compile with read-only fields

---
 .../generating/bitfield/features/common/generator_helper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index a4a54a4..4c12f69 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -711,8 +711,10 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    // Named through the bitfield, because the builder's constructors also set
+    // fields on a local `this` and `Self` is the builder there.
+    let field_bits_tokens = get_field_bits_tokens(bitfield, field, /* builder_caller= */ true);
+    let field_offset_tokens = get_field_offset_tokens(bitfield, field, /* builder_caller= */ true);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
-- 
2.43.0


From 3357d418ffcfb5e5505297a39e13348e86de5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:23 +0000
Subject: [PATCH 16/21] fix: default constants whose name ends in f32 or f64
 were rejected as floats

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..ff8cd78 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,7 +78,10 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
+        // Constants are not numbers, their name can look like a float suffix (`BUF32`).
+        let is_number =
+            Self::strip_negative_sign(number_str).starts_with(|c: char| c.is_ascii_digit());
+        if is_number && !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-- 
2.43.0


From 67ca0571d68ccd79d28908a280f6b6c333291842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:35 +0000
Subject: [PATCH 17/21] fix: default expressions starting with a hex, binary or
 octal literal made the macro panic

---
 bitfields_impl/src/parsing/common/const_expr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index ff8cd78..86c0171 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -157,7 +157,10 @@ impl ConstExpr {
                 IntegerPrefix::Hex.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse hex literal: {err}"),
+                )),
             };
         }
 
@@ -167,7 +170,10 @@ impl ConstExpr {
                 IntegerPrefix::Binary.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse binary literal: {err}"),
+                )),
             };
         }
 
@@ -177,7 +183,10 @@ impl ConstExpr {
                 IntegerPrefix::Octal.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse octal literal: {err}"),
+                )),
             };
         }
 
-- 
2.43.0


From 634f465651938f3ad695234b12a0b7c5bb8f69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 18/21] fix: derive Copy through core so bitfields compile
 without std

---
 .../src/generating/bitfield/features/bitfield_struct_feature.rs | 2 +-
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..f88075e 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -87,7 +87,7 @@ impl BitfieldStructFeatureGenerator {
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(core::marker::Copy, core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..fe95e09 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(core::marker::Copy, core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 8151ef003ef36e7f9a4535d684e0cd1c942f7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 19/21] fix: a default on a field of more than 128 bits
 overflowed a shift in the macro

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index a0724b6..991bfe4 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -380,8 +380,8 @@ fn check_field_data_type_can_hold_bits(
 /// Compute the minimum and maximum representable signed/unsigned values for
 /// a given number of bits.
 const fn min_max_for_bits(bits: u32) -> (i128, u128) {
-    let max: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
-    let min: i128 = if bits == 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
+    let max: u128 = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
+    let min: i128 = if bits >= 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
     (min, max)
 }
 
-- 
2.43.0


From ac353361228a108052fe0fb43ac5ca164f0c76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 20/21] fix: field widths were summed in 32 bits, so huge
 widths could wrap to the size of the bitfield

---
 .../src/parsing/bitfields/bitfield_parser.rs    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 991bfe4..e7bf560 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -391,10 +391,12 @@ fn calculate_field_offset(
     bits: u32,
     prev_fields: &[Field],
 ) -> syn::Result<u32> {
-    let offset = prev_fields.iter().map(Field::bits).sum::<u32>();
+    let offset = prev_fields.iter().map(|field| u64::from(field.bits())).sum::<u64>();
 
     match bitfield_attribute.arguments().order() {
-        BitOrder::Lsb => Ok(offset),
+        // The total bits of all fields are checked later, an offset that doesn't fit
+        // belongs to a bitfield that is rejected then.
+        BitOrder::Lsb => Ok(u32::try_from(offset).unwrap_or(u32::MAX)),
         BitOrder::Msb => {
             let bitfield_bit_size =
                 bitfield_attribute.spanned_data_type_token().data_type().bit_size();
@@ -402,9 +404,9 @@ fn calculate_field_offset(
             // the total bits of all fields is greater than the number of bits
             // of the bitfield type. We will catch it later so
             // we can ignore for now.
-            let total_bits = offset + bits;
-            if total_bits <= bitfield_bit_size {
-                Ok(bitfield_bit_size - bits - offset)
+            let total_bits = offset + u64::from(bits);
+            if total_bits <= u64::from(bitfield_bit_size) {
+                Ok(bitfield_bit_size - total_bits as u32)
             } else {
                 // We've overflown the bitfield type.
                 Err(create_user_parsing_compiler_error(
@@ -470,8 +472,9 @@ fn check_fields_fit_in_bitfield_type(
     bitfield_attribute: &BitfieldAttribute,
     fields: &[Field],
 ) -> syn::Result<()> {
-    let total_field_bits = fields.iter().map(Field::bits).sum::<u32>();
-    let bitfield_bit_size = bitfield_attribute.spanned_data_type_token().data_type().bit_size();
+    let total_field_bits = fields.iter().map(|field| u64::from(field.bits())).sum::<u64>();
+    let bitfield_bit_size =
+        u64::from(bitfield_attribute.spanned_data_type_token().data_type().bit_size());
 
     match total_field_bits.cmp(&bitfield_bit_size) {
         Ordering::Greater => Err(create_user_parsing_compiler_error(
-- 
2.43.0


From 4cf8418df7cff9b98e70c7bc36dfe99315f18aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 21/21] fix: the bit size of arrays longer than 512 MiB
 overflowed in the macro

---
 bitfields_impl/src/parsing/common/spanned_data_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index b97b4fa..ff19dc6 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -92,6 +92,11 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::ZeroArrayLength);
                 }
 
+                // The number of bits is kept in a `u32` as well.
+                if length.checked_mul(IntegerType::U8.bit_size()).is_none() {
+                    return Err(TypeParsingError::ArrayLengthTooLarge);
+                }
+
                 Ok(DataType::Array {
                     length,
                 })
-- 
2.43.0

