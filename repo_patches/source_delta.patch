From f0a4221f52956bff1b292c9fcaeeb810450e5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 1/9] fix: keep small magnitudes from being flushed to zero

Magnitude::into_f64 computed 2^exponent in one step, which underflows to
zero for |x| < 2^-971 (exponents below -1023), so tiny and subnormal
numbers did not survive the round trip through Magnitude.
---
 crates/diman_lib/src/magnitude.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..10e9ee6 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,11 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // Scale in two steps, since 2^exponent alone over- or underflows
+        // for numbers close to the limits of the f64 range.
+        let exponent = self.exponent as i32;
+        let half = exponent / 2;
+        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(half) * 2.0f64.powi(exponent - half)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From e60d50d71c57f46eacdddb92a69ae1dc87080ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 2/9] fix: normalize the sign of rational exponents

Ratio::new(1, -2) and Ratio::new(-1, 2) denote the same number but had
different representations, so that equal dimensions compared unequal.
---
 crates/diman_lib/src/ratio.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..509ab2b 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -37,6 +37,9 @@ impl Ratio {
 
     pub const fn new(num: i64, denom: i64) -> Self {
         let gcd = gcd(num, denom);
+        // Keep the denominator positive, so that equal numbers have equal
+        // representations.
+        let gcd = if denom < 0 { -gcd } else { gcd };
         Self {
             num: num / gcd,
             denom: denom / gcd,
-- 
2.43.0


From 6d165626cd4157e3f57d2c5cb354f8f9d6634d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 3/9] fix: compare all base dimensions in annotation checks

The comparison ignored base dimensions that only the other side had, so
'unit foo: Length = meters * seconds' and any unit annotated as
dimensionless were accepted, and it rejected explicit zero exponents.
---
 crates/diman_unit_system/src/dimension_math.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..fdbd7c8 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -21,12 +21,10 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
+        // A base dimension which is not listed has exponent zero.
+        let zero = Exponent::zero();
+        self.fields.keys().chain(other.fields.keys()).all(|dim| {
+            self.fields.get(dim).unwrap_or(&zero) == other.fields.get(dim).unwrap_or(&zero)
         })
     }
 }
-- 
2.43.0


From f67a74cce6016a261779f634703b908968f4e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 4/9] fix: divide units by quantities in the right direction

Unit / Quantity and RuntimeUnit / Quantity computed quantity / unit while
claiming the dimension of unit / quantity. The quotient needs the
magnitude as a number, so the impls are now per storage type.
---
 .../src/codegen/unit_type.rs                  | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..e62e741 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -68,19 +68,6 @@ impl Codegen {
                 }
             }
 
-            // Unit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, S> Div<Quantity<S, DR>>
-                for Unit<DL, FL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / FL)
-                }
-            }
-
             // Quantity<S> / Unit
             impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Div<Unit<DR, FR>>
                 for Quantity<S, DL>
@@ -129,19 +116,6 @@ impl Codegen {
                 }
             }
 
-            // RuntimeUnit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, S> Div<Quantity<S, DR>>
-                for RuntimeUnit<DL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / self.0)
-                }
-            }
-
             // Quantity<S> / RuntimeUnit
             impl<const DL: Dimension, const DR: Dimension, S> Div<RuntimeUnit<DR>>
                 for Quantity<S, DL>
@@ -229,6 +203,18 @@ impl Codegen {
                 }
             }
 
+            // Unit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude> Div<Quantity<#name, DR>>
+                for Unit<DL, FL>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(FL.#conversion_to_float() / x.value_unchecked())
+                }
+            }
+
             // X * RuntimeUnit
             impl<const D: Dimension> Mul<RuntimeUnit<D>> for #name {
                 type Output = Quantity<#name, D>;
@@ -260,6 +246,18 @@ impl Codegen {
                     Quantity(self.0.#conversion_to_float() / f)
                 }
             }
+
+            // RuntimeUnit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension> Div<Quantity<#name, DR>>
+                for RuntimeUnit<DL>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(self.0.#conversion_to_float() / x.value_unchecked())
+                }
+            }
         };
         res
     }
-- 
2.43.0


From da4bcfe304df17e5b75e13d9b5631984b186c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 5/9] fix: give number / unit the inverse dimension

1.0 / seconds was a Time instead of an inverse time.
---
 crates/diman_unit_system/src/codegen/unit_type.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index e62e741..fd4e94e 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -180,8 +180,11 @@ impl Codegen {
             }
 
             // X / Unit
-            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, _: Unit<D, F>) -> Self::Output {
                     Quantity(self / #into)
                 }
@@ -224,8 +227,11 @@ impl Codegen {
             }
 
             // X / RuntimeUnit
-            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, unit: RuntimeUnit<D>) -> Self::Output {
                     Quantity(self / unit.0.#conversion_to_float())
                 }
-- 
2.43.0


From 06c4edd0092310bf384b554f5a1eb62ad2fd17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 6/9] fix: read quantities only in units of their own dimension

value_in accepted anything convertible into a magnitude, so
length.value_in(seconds) compiled.
---
 crates/diman_unit_system/src/codegen/quantity_type.rs | 2 +-
 crates/diman_unit_system/src/codegen/unit_type.rs     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index e7a8d8e..6157f22 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -61,7 +61,7 @@ impl Codegen {
             where
                 S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
             {
-                pub fn value_in<A: Into<Magnitude>>(self, a: A) -> S {
+                pub fn value_in<A: unit_type::UnitOf<D>>(self, a: A) -> S {
                     self.value_unchecked() / a.into()
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index fd4e94e..5a8366c 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -149,6 +149,13 @@ impl Codegen {
                     unit.0
                 }
             }
+
+            /// A unit of dimension D.
+            pub trait UnitOf<const D: Dimension>: Into<Magnitude> {}
+
+            impl<const D: Dimension, const F: Magnitude> UnitOf<D> for Unit<D, F> {}
+
+            impl<const D: Dimension> UnitOf<D> for RuntimeUnit<D> {}
         }
     }
 
-- 
2.43.0


From 1b7161e4f47131ca272b0ec0cb01cd94f947c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 7/9] fix: do not panic when debug-printing a dimension without
 a base unit

A base dimension needs no base unit with a symbol. Formatting a quantity
of such a dimension unwrapped a None; use the name of the dimension.
---
 crates/diman_unit_system/src/codegen/debug_trait.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 51214b7..22efd23 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -76,14 +76,18 @@ impl Codegen {
 
     fn get_base_dimension_symbol(&self, base_dim: &BaseDimension) -> TokenStream {
         let dim = self.get_dimension_expr(&BaseDimensions::for_base_dimension(base_dim.clone()));
-        // We know that symbols exist for base dimensions, so we can unwrap here.
         let base_dim = &base_dim.0;
+        // There might be no unit for this base dimension, in which case we use its name.
+        let name = base_dim.to_string();
+        let symbol = quote! {
+            units.get_first_unit_for_dimension(#dim).map_or(#name, |unit| unit.symbol)
+        };
         quote! {
             if D.#base_dim == Exponent::one() {
-                write!(f, " {}", units.get_first_unit_for_dimension(#dim).unwrap().symbol)?;
+                write!(f, " {}", #symbol)?;
             }
             else if D.#base_dim != Exponent::zero() {
-                write!(f, " {}^{}", units.get_first_unit_for_dimension(#dim).unwrap().symbol, D.#base_dim)?;
+                write!(f, " {}^{}", #symbol, D.#base_dim)?;
             }
         }
     }
-- 
2.43.0


From 316e67403ed23671b3bcfd4e1107a40c2b43fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 8/9] fix: deserialize the rational exponents that
 serialization writes

With rational dimensions, quantities serialize with exponents like
's^-1/2', which could not be read back.
---
 crates/diman_unit_system/src/codegen/serde.rs | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..7f6bacb 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -20,6 +20,12 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
+        let parse_exponent = self.parse_exponent_impl();
+        let pow_entries: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: unit.dimension.#dim * exponent, })
+            .collect();
 
         quote! {
             use core::marker::PhantomData;
@@ -67,22 +73,45 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        parse_exponent(split[1]).ok_or_else(|| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    #dimension_type { #pow_entries },
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
+
+            #parse_exponent
+        }
+    }
+
+    #[cfg(feature = "rational-dimensions")]
+    fn parse_exponent_impl(&self) -> TokenStream {
+        quote! {
+            fn parse_exponent(exponent_str: &str) -> Option<Exponent> {
+                let (num, denom) = exponent_str.split_once('/').unwrap_or((exponent_str, "1"));
+                let num = num.parse::<i32>().ok()?;
+                let denom = denom.parse::<i32>().ok().filter(|denom| *denom != 0)?;
+                Some(Exponent::new(num as i64, denom as i64))
+            }
+        }
+    }
+
+    #[cfg(not(feature = "rational-dimensions"))]
+    fn parse_exponent_impl(&self) -> TokenStream {
+        quote! {
+            fn parse_exponent(exponent_str: &str) -> Option<Exponent> {
+                exponent_str.parse::<i32>().ok().map(Exponent::from_int)
+            }
         }
     }
 
-- 
2.43.0


From 1c47a0fb72bf0521cca67ae220e5c31379e6db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 9/9] fix: reject text in front of a serialized vector

Anything before the opening bracket was ignored, so '-(1 2) m' was read
as (1 2) m.
---
 crates/diman_unit_system/src/codegen/serde.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 7f6bacb..bff1f5f 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -263,10 +263,10 @@ impl Codegen {
                         .find(')')
                         .ok_or_else(|| E::custom("No closing bracket in vector string"))?;
                     let (vector_part, unit_part) = value.split_at(bracket_end + 1);
-                    let bracket_begin = vector_part
-                        .find('(')
+                    let vector_part = vector_part
+                        .strip_prefix('(')
                         .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
-                    let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
+                    let vector_part = vector_part[..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
                         return Err(E::custom(format!("found {} substrings in brackets, expected {}", vector_components.len(), #num_dims)))?;
-- 
2.43.0

