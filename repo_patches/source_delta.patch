From e51550fd81a8f5e711f1fc7e8fc0a1d0cc856579 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 01/19] fix: reciprocal division LCRNG draws no longer divide
 by zero when maximum is 1

The divisor 0xFFFF // maximum + 1 was truncated to 16 bits, which is 0 for
maximum = 1 (ZeroDivisionError when compiled).
---
 numba_pokemon_prngs/lcrng/lcrng32.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..31e6b82 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,9 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // (np.uint32(0xFFFF) // np.uint32(maximum) + np.uint32(1))
                 )
 
             def const_rand(
@@ -172,8 +173,9 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // (np.uint32(0xFFFF) // np.uint32(maximum) + np.uint32(1))
                     )
 
                 return rand_func
-- 
2.43.0


From fadaa70bf8a2450c2ced9658f7b17ce877a1bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 02/19] fix: LCRNG64 jump and const_jump accept numpy uint64
 distances without numba

np.uint64 & 1 and np.uint64 >>= 1 raise TypeError in numpy, so jumps by the
documented argument type only worked when compiled.
---
 numba_pokemon_prngs/lcrng/lcrng64.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..4ae6057 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,18 +110,20 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
-        def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+        def const_jump(adv: np.uint64, **kwargs) -> Callable[[LCRNG64]]:
+            adv = int(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
-- 
2.43.0


From 7f2e8a4ed70d640dbd461ea6fff1185f8af15ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 03/19] fix: ARNG and ARNGR draw bounded values with the
 documented modulo distribution

Both are documented as using it but were built without one, so next_rand and
const_rand raised NotImplementedError.
---
 numba_pokemon_prngs/lcrng/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/lcrng/__init__.py b/numba_pokemon_prngs/lcrng/__init__.py
index cf71802..ada5dfc 100644
--- a/numba_pokemon_prngs/lcrng/__init__.py
+++ b/numba_pokemon_prngs/lcrng/__init__.py
@@ -52,6 +52,7 @@ class PokeRNGRDiv(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
 )
 class ARNG(LCRNG32):
     """Alternative Pokemon LCRNG with modulo random distribution"""
@@ -60,6 +61,7 @@ class ARNG(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
     reverse=True,
 )
 class ARNGR(LCRNG32):
-- 
2.43.0


From 962d2fe13e94c1a73c4531e38f724022c2f744ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/19] fix: TinyMersenneTwister.temper discards the carry of
 its 32-bit addition when compiled

---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..68037a8 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,7 +75,8 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        # compiled addition is 64-bit, the carry has to be discarded
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-- 
2.43.0


From 196ecbb77c1127d85bf16dbe95e54c772b3f8657 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 05/19] fix: MersenneTwister and SIMDFastMersenneTwister
 advance no longer wrap around for large distances

---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 8 ++++----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..cb2789a 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,11 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # 64-bit so that adding the index cannot wrap around
+        adv = np.uint64(adv) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..1997e74 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,11 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # 64-bit so that doubling and adding the index cannot wrap around
+        adv = (np.uint64(adv) * np.uint64(2)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From 413b13a37aa049aeae1ca82da4bcfd1a7ebc29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 06/19] fix: RNGList stores state_type elements and finds
 inherited draw functions

---
 numba_pokemon_prngs/rng_list.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..d4aad87 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,13 +46,14 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        # getattr also finds functions that rng_class inherits
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From 1b824e10219602f2331e9eb50201270b8b3c541d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 07/19] fix: bare optional_njit returns the function when numba
 is disabled

---
 numba_pokemon_prngs/compilation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..44b6963 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -117,8 +117,8 @@ else:
         return np.ndarray
 
     def return_type(output_type, input_types):
-        """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        """Signatures are not used outside of numba"""
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,7 +167,9 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
+    if callable(signature_or_function):
+        # @optional_njit w/o arguments provided
+        return signature_or_function
 
     def wrap(func):
         return func
-- 
2.43.0


From 7214a6e03534c61d0c5e93a395661daa2ac5a448 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 08/19] fix: gen 3 slot tables gave the last roll of each slot
 to the next slot

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..4209169 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -15,10 +15,11 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
     """Compute encounter slot lookup table"""
     table = np.empty(100, dtype=np.uint8)
 
-    r_val = 99 if greater else 0
+    start = 99 if greater else 0
     for i, range_val in enumerate(ranges):
-        for r_val in range(r_val, range_val, -1 if greater else 1):
+        for r_val in range(start, range_val, -1 if greater else 1):
             table[r_val] = i
+        start = range_val
 
     return table
 
-- 
2.43.0


From a682c83d6cfb748919936012b2aedfdce3e21470 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 09/19] fix: gen 3 grass encounters used the fishing rate and
 fishing the grass rate

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 4209169..189b174 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -195,9 +195,9 @@ def get_encounter_rate(
 ) -> np.uint8:
     """Get encounter rate"""
     if encounter_type == Encounter.GRASS:
-        return encounter_area.fish_rate
+        return encounter_area.land_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
     if encounter_type == Encounter.SURFING:
         return encounter_area.water_rate
-    return encounter_area.land_rate
+    return encounter_area.fish_rate
-- 
2.43.0


From d77e31864644dc69ba911541c9ceb8585e2b01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 10/19] fix: compiled gen 3 lead slots outlive the call that
 picks one

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 71 +++++++++-----------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 189b174..ef006bf 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -4,10 +4,7 @@ import numpy as np
 from ..data.encounter.encounter_area_3 import EncounterArea3, Slot3
 from ..data.personal import PersonalInfo3
 from ..lcrng import PokeRNGMod
-from ..compilation import (
-    optional_njit,
-    TypedList,
-)
+from ..compilation import optional_njit
 from ..enums import Encounter, Game, Lead
 
 
@@ -114,6 +111,20 @@ def is_rse_safari_zone(encounter_area: EncounterArea3, game: Game) -> np.bool_:
     return False
 
 
+@optional_njit
+def get_slots_of_type(
+    slots: list[Slot3], lead_type: np.uint8, personal_info_table: list[PersonalInfo3]
+):
+    """Get the slots whose pokemon has lead_type as one of its types"""
+    # an array keeps the slots alive when one is returned from compiled code,
+    # slots taken from a TypedList only live as long as the function taking them
+    matching = np.zeros(len(slots), np.bool_)
+    for i, slot in enumerate(slots):
+        info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
+        matching[i] = info.type_1 == lead_type or info.type_2 == lead_type
+    return slots[matching]
+
+
 @optional_njit
 def get_modified_slots(
     encounter_area: EncounterArea3,
@@ -123,8 +134,6 @@ def get_modified_slots(
     personal_info_table: list[PersonalInfo3],
 ):
     """Get modified slots from type-specific leads"""
-    encounters = TypedList()
-
     if lead == Lead.MAGNET_PULL:
         lead_type = 8
     elif lead == Lead.STATIC:
@@ -152,41 +161,25 @@ def get_modified_slots(
     elif lead == Lead.STORM_DRAIN:
         lead_type = 10
     else:
-        return encounters
+        return encounter_area.land[:0]
 
-    # loop has to be repeated or TypedList breaks for some reason
     if encounter_type == Encounter.OLD_ROD:
-        for slot in encounter_area.fish_old:
-            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
-            if info.type_1 == lead_type or info.type_2 == lead_type:
-                encounters.append(slot)
-    elif encounter_type == Encounter.GOOD_ROD:
-        for slot in encounter_area.fish_good:
-            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
-            if info.type_1 == lead_type or info.type_2 == lead_type:
-                encounters.append(slot)
-    elif encounter_type == Encounter.SUPER_ROD:
-        for slot in encounter_area.fish_super:
-            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
-            if info.type_1 == lead_type or info.type_2 == lead_type:
-                encounters.append(slot)
-    elif encounter_type == Encounter.ROCK_SMASH:
-        for slot in encounter_area.rock:
-            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
-            if info.type_1 == lead_type or info.type_2 == lead_type:
-                encounters.append(slot)
-    elif encounter_type == Encounter.SURFING:
-        for slot in encounter_area.water:
-            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
-            if info.type_1 == lead_type or info.type_2 == lead_type:
-                encounters.append(slot)
-    else:
-        for slot in encounter_area.land:
-            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]
-            if info.type_1 == lead_type or info.type_2 == lead_type:
-                encounters.append(slot)
-
-    return encounters
+        return get_slots_of_type(
+            encounter_area.fish_old, lead_type, personal_info_table
+        )
+    if encounter_type == Encounter.GOOD_ROD:
+        return get_slots_of_type(
+            encounter_area.fish_good, lead_type, personal_info_table
+        )
+    if encounter_type == Encounter.SUPER_ROD:
+        return get_slots_of_type(
+            encounter_area.fish_super, lead_type, personal_info_table
+        )
+    if encounter_type == Encounter.ROCK_SMASH:
+        return get_slots_of_type(encounter_area.rock, lead_type, personal_info_table)
+    if encounter_type == Encounter.SURFING:
+        return get_slots_of_type(encounter_area.water, lead_type, personal_info_table)
+    return get_slots_of_type(encounter_area.land, lead_type, personal_info_table)
 
 
 @optional_njit
-- 
2.43.0


From 343290799369e6705928a53a8279e8e8ab471298 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 11/19] fix: Static attracts electric slots, the personal data
 numbers the types without ???

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index ef006bf..2fc2d93 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -137,23 +137,7 @@ def get_modified_slots(
     if lead == Lead.MAGNET_PULL:
         lead_type = 8
     elif lead == Lead.STATIC:
-        lead_type = (
-            13
-            if game
-            & (
-                Game.RUBY
-                | Game.SAPPHIRE
-                | Game.EMERALD
-                | Game.FIRE_RED
-                | Game.LEAF_GREEN
-                | Game.DIAMOND
-                | Game.PEARL
-                | Game.PLATINUM
-                | Game.HEART_GOLD
-                | Game.SOUL_SILVER
-            )
-            else 12
-        )
+        lead_type = 12
     elif lead == Lead.HARVEST:
         lead_type = 11
     elif lead == Lead.FLASH_FIRE:
-- 
2.43.0


From 592f6eb112856ac3a1b7df0b49384464504d22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 12/19] fix: hidden power strength is a whole number without
 numba

---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From 5b12453ea9c67567b33c9ccae8d4d77e809f2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 13/19] fix: natures modify speed, special attack and special
 defense by the stat they name

---
 numba_pokemon_prngs/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..810fece 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -45,10 +45,12 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     return np.uint64((val << (np.uint8(64) - count)) | (val >> count))
 
 
+# natures are numbered by Atk, Def, Spe, SpA, SpD, stats are stored Atk, Def, SpA, SpD, Spe
+NATURE_STATS = (0, 1, 4, 2, 3)
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STATS[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STATS[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From 4395aa9b273b8efe191c6146d87a58657daabeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 14/19] fix: advance the main rng when an RSE rock smash check
 finds no encounter

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..a7b2b6b 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -81,6 +81,7 @@ class WildGenerator3:
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
+                rng.next()
                 continue
 
             encounter_slot = encounter_area_3.calculate_hslot_lead(
-- 
2.43.0


From 5b0b55fae8dfea10b3fe0b9b948cbba5587ea35d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 15/19] fix: roll for cute charm on species that have a gender
 to fix

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index a7b2b6b..b63deab 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -95,9 +95,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 83a7958c389b0db5a060f857abb3473d3d08487e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 16/19] fix: select Legends Arceus slots without numba (slots
 is a plain array)

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..bfc353b 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -43,9 +43,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, time]
+            * self.slots["weather_multipliers"][:, weather]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From 3adf1567397301542670164fdbe755aeaa928e1f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 17/19] fix: give Diamond its own flag and Platinum its own
 personal table

---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 numba_pokemon_prngs/enums/game.py             | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From ec4a80159c14c437a1a7d8c460f1cc9ddb7d58fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 18/19] fix: store derived data caches atomically

---
 numba_pokemon_prngs/data/encounter/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..0c4fd0d 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -41,11 +41,14 @@ def pickle_cached(filename: str, encode = None, decode = None):
                             return decode(data)
                         return data
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
+            # a partially written file must never be found under the final name
+            temp_filename = f"{pkl_filename}.{os.getpid()}.tmp"
+            with open(temp_filename, "wb+") as pickled_file:
                 if encode is not None:
                     pickled_file.write(pickle.dumps(encode(result)))
                 else:
                     pickle.dump(result, pickled_file)
+            os.replace(temp_filename, pkl_filename)
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From e906ee1df1cb942907827284e74fc598aba28fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 19/19] fix: return the default for an absent FlatBuffer string

---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..092e9ec 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -141,8 +141,10 @@ class FlatBufferObject:
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
-            array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            array = self._table.Bytes[array_offset : array_offset + array_len].decode(
+                "utf-8"
+            )
+        return array
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0

