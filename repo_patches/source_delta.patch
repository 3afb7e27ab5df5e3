From ccfa634c48c6126f5d54c8b7a87f70651427fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 01/21] fix: MixedCategory uses the addressed sub-category and
 its own offset

index() handed the parts to the preceding sub-category and category() subtracted the
end instead of the start of the sub-range, so composites of differently shaped
sub-categories mixed them up or failed.
---
 mahjong/record/category.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..61b7e3b 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -60,13 +60,13 @@ class MixedCategory(Category):
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From 08c5c68061e7c0cc75625486bb59078654f649df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 02/21] fix: InvisibleTiles drops discarded tile number 0

The first copy of 1m has tile number 0, which was taken for 'no discard'.
---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From 6f38f40054fcc7a600f3a72efdc638dd741b5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 03/21] fix: three player InvisibleTiles holds tile numbers
 only

The 1m and 9m were added as (color, number, copy) tuples that no event can remove.
---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..4998032 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,7 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i)) for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From a944e98ed82a2cdd19f987f941e119d17850d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 04/21] fix: tile_to_tenhou_range gives a red five the range of
 the five

---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..982f7a2 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (5 if isinstance(tile, AkaTile) else tile.number) - 1
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From 1bfc3541b9b5161eadd0d16c930db4f4c9195f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 05/21] fix: to_unicode_tile gives a red five the character of
 the five

---
 mahjong/tenhou_record_check.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..0da75d0 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -22,7 +22,7 @@ from mahjong.record.state import PlayerHand, InvisibleTiles, PlayerMeld
 from mahjong.record.utils import event
 from mahjong.record.utils.value.meld import Kita
 from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
-from mahjong.tile.definition import Tile
+from mahjong.tile.definition import Tile, AkaTile
 
 
 def n_a_r(n, r):
@@ -46,7 +46,7 @@ def to_unicode_tile(tile: Tile) -> str:
     if tile.color == 'z':
         number = UNICODE_HONOR_ORDER[tile.number] - 1
     else:
-        number = tile.number - 1
+        number = (5 if isinstance(tile, AkaTile) else tile.number) - 1
     index = TILE_CATEGORY.index((color, number))
     return chr(0x1f000 + index)
 
-- 
2.43.0


From 601a85ad31c5f6f86879a017c734d414e0917adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 06/21] fix: BruteForceWaiting honours the four copies option

---
 mahjong/container/pattern/reasoning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..ac7c557 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -36,14 +36,14 @@ class BruteForceWaiting(Waiting):
         for need_tiles in count(1):
             for tiles in product(TileDistribution.ALL_TILES, repeat=need_tiles):
                 added_hand = hand + TileSet(tiles)
-                if (ignore_4counts and all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
+                if (not ignore_4counts or all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
                     return need_tiles - 1
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         return set(tile for tile in TileDistribution.ALL_TILES if
-                   (ignore_4counts and hand[tile] < 4) and
-                   self.before_waiting_step(hand + TileSet([tile])) < self_waiting)
+                   (not ignore_4counts or hand[tile] < 4) and
+                   self.before_waiting_step(hand + TileSet([tile]), ignore_4counts) < self_waiting)
 
 
 def borrowed_limit(hand):
-- 
2.43.0


From 9396c467a81073344cd020fc55a43a9c449438a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 07/21] fix: HeuristicPatternMatchWaiting forwards the four
 copies option

---
 mahjong/container/pattern/reasoning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index ac7c557..96f8065 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -159,13 +159,13 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         logging.debug("finding waiting step")
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, self_waiting)
 
         return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
-        waiting_step = self.before_waiting_step(hand)
+        waiting_step = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From 3c141efbd3b2f30f8727755f8ec0eaf419c8936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 08/21] fix: match_both registers under the key that translate
 looks up

---
 mahjong/record/universe/tenhou/xml_macher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/xml_macher.py b/mahjong/record/universe/tenhou/xml_macher.py
index 5d1caf8..f3aed83 100644
--- a/mahjong/record/universe/tenhou/xml_macher.py
+++ b/mahjong/record/universe/tenhou/xml_macher.py
@@ -44,7 +44,7 @@ class TenhouCommandTranslator(CommandTranslator):
 
     def match_both(self, *, name: str, attr: str) -> Callable[[EventTransform], EventTransform]:
         def _matcher_decor(func: EventTransform):
-            self.both_match[(attr, name)].append(func)
+            self.both_match[(name, attr)].append(func)
             return func
 
         return _matcher_decor
-- 
2.43.0


From 651120de54c5530cfc15684412f85a06660ef641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 09/21] fix: AkaTile pool is looked up by the key it is stored
 under

---
 mahjong/tile/definition.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mahjong/tile/definition.py b/mahjong/tile/definition.py
index 59b087d..a9293c1 100644
--- a/mahjong/tile/definition.py
+++ b/mahjong/tile/definition.py
@@ -123,11 +123,10 @@ class AkaTile(Tile):
     def __new__(cls, number: int, color: str):
         assert 0 == number
         assert color in 'mps'
-        tile_hash = tile_hash_num(color, number)
+        tile_hash = tile_hash_num(color, number + 5)
         if tile_hash in AkaTile._ATILE_POOL:
             return AkaTile._ATILE_POOL[tile_hash]
         else:
-            tile_hash = tile_hash_num(color, number + 5)
             tile_obj = object.__new__(cls)
             self = tile_obj
             self._hash = tile_hash
-- 
2.43.0


From 457cf4bfb88a06fdb7df60e088475ed96f732a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 10/21] fix: TransferDict blocks clear and item deletion like
 the other mutators

---
 mahjong/record/universe/executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..fd75205 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -175,9 +175,9 @@ class TransferDict:
         return repr(self.nested_dict)
 
     def _readonly(self, *args, **kwards):
-        raise NotImplemented
+        raise NotImplementedError("TransferDict is read only.")
 
-    __setitem__ = __delattr__ = pop = update = popitem = _readonly
+    __setitem__ = __delitem__ = __delattr__ = pop = update = popitem = clear = _readonly
 
     def set(self, key, value):
         modified_dict = {
-- 
2.43.0


From e775a925c4cae0dbd2ae82cffc141efba35276f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 11/21] fix: each conversion of a record has its own
 interpreter state

---
 mahjong/record/universe/tenhou/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 027a402..6ce0fdd 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -1,11 +1,15 @@
+import copy
+
 import mahjong.record.universe.tenhou.event_definition as _event_def
+from mahjong.record.universe.interpreter import GameInterpreter
 from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 
 def to_command_iter(record, strict):
-    tenhou_command.clear()
+    translator = copy.copy(tenhou_command)
+    translator.interpreter = GameInterpreter()
     for event in record.events:
-        yield from tenhou_command(event, strict)
+        yield from translator(event, strict)
 
 
 def to_command_records(record, raw=False, strict=False):
-- 
2.43.0


From f9063a37dabec1caf6389c97ffd2a6b1ec071b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 12/21] fix: report a discard when no useful tile is left

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 0da75d0..ecd617e 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -257,7 +257,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    correct_rate = your_counts / base if base > 0 else 1.0
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 95b4e35ce58f82f0472db3008f26403070fc37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 13/21] fix: win rate summary without a single win

---
 mahjong/win_rate_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..411a1bc 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,7 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count if total_win_count > 0 else 0
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
-- 
2.43.0


From 6e8d62504fdfff9e3cdb6c95341b6a1fb77d2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 14/21] fix: player names and log ids cannot put directories
 into file names

---
 mahjong/record/utils/value/general.py | 9 +++++++++
 mahjong/tenhou_record_check.py        | 4 +++-
 mahjong/universe_paifu_convert.py     | 3 ++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/utils/value/general.py b/mahjong/record/utils/value/general.py
index 587948a..23fda6a 100644
--- a/mahjong/record/utils/value/general.py
+++ b/mahjong/record/utils/value/general.py
@@ -1,3 +1,12 @@
+import re
+
+_NOT_IN_FILE_NAME = re.compile(r'[\\/:*?"<>|\x00-\x1f]')
+
+
+def plain_file_name(text) -> str:
+    return _NOT_IN_FILE_NAME.sub('_', str(text))
+
+
 def number_list(int_string: str, split=','):
     return [int(float(x))
             if int(float(x)) == float(x)
diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index ecd617e..2c3486e 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -20,6 +20,7 @@ from mahjong.record.category import MixedCategory, SubCategory
 from mahjong.record.reader import from_url, log_id_from_url, log_id_to_url
 from mahjong.record.state import PlayerHand, InvisibleTiles, PlayerMeld
 from mahjong.record.utils import event
+from mahjong.record.utils.value.general import plain_file_name
 from mahjong.record.utils.value.meld import Kita
 from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
 from mahjong.tile.definition import Tile, AkaTile
@@ -193,7 +194,8 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        file_name = plain_file_name("tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index))
+        return file_name, render_str
     else:
         return render_str
 
diff --git a/mahjong/universe_paifu_convert.py b/mahjong/universe_paifu_convert.py
index 438396d..ca68547 100644
--- a/mahjong/universe_paifu_convert.py
+++ b/mahjong/universe_paifu_convert.py
@@ -6,13 +6,14 @@ from mahjong.record.reader import from_url, log_id_from_url
 from mahjong.record.universe.command import GameCommand
 from mahjong.record.universe.executor import GameExecutor
 from mahjong.record.universe.tenhou import to_commands, to_command_records
+from mahjong.record.utils.value.general import plain_file_name
 
 
 def main():
     tenhou_link = input("input your tenhou.net paifu link:").strip()
     log_id = log_id_from_url(tenhou_link)
     record = from_url(tenhou_link, timeout=10)
-    command_csv_path = "{}_command.csv".format(log_id)
+    command_csv_path = plain_file_name("{}_command.csv".format(log_id))
     pandas.DataFrame(to_command_records(record)).to_csv(command_csv_path)
     print("command and state saved to '{}'".format(command_csv_path))
     os.system("pause")
-- 
2.43.0


From 2d05d5388425e3768dd95aae4724bb781b97d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 15/21] fix: extra_level holds the rating and is a float

---
 mahjong/record/universe/format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/format.py b/mahjong/record/universe/format.py
index 02bd63c..22a115a 100644
--- a/mahjong/record/universe/format.py
+++ b/mahjong/record/universe/format.py
@@ -150,10 +150,10 @@ class PlayerView(View, Flag):
     final_score = auto()
     final_point = auto()
 
-    type__str = name | level | extra_level
+    type__str = name | level
     type__index = round
     type__int = rank
-    type__float = final_point
+    type__float = final_point | extra_level
     type__bool = is_dealer | is_win | is_self_win | is_discard_lose_game | in_richii | disconnected
     type__score = score | final_score
     type__tiles = hand | discard_tiles | meld_public_tiles | bonus_tiles
-- 
2.43.0


From 1149776b403a67e98c1f46a5439fd5a9e82f7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 16/21] fix: repr of TenhouEvent

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From 667d2f20822df22fb15ba69e2527c676c9e4bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 17/21] fix: text of an unparsed event names its tag and
 attributes

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 5d7c0b1..c0e17c1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -144,7 +144,7 @@ class TenhouEvent:
                 reason=DRAWN_TYPES[attrs['type']]
                 if 'type' in attrs else '',
             )
-        return "UNPARSED".format(
+        return "UNPARSED {tag} {attr_expr}".format(
             tag=event.tag,
             attr_expr=",".join("{}={}".format(k, v) for k, v in attrs.items()),
         )
-- 
2.43.0


From df92a3c066e60f46dc475b563cf91174003fade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 18/21] fix: the paifu row of a new dora indicator holds text

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index c0e17c1..587fc48 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -231,7 +231,7 @@ class TenhouEvent:
                 return [richi, score]
 
         if is_dora_indicator_event(event):
-            tile = tile_from_tenhou(int(attrs['hai']))
+            tile = str(tile_from_tenhou(int(attrs['hai'])))
             return [{'event_type': 'DORA', 'player': '0', 'player_see': tile, 'player_show': tile}]
 
         if is_somebody_win_game(event):
-- 
2.43.0


From 30b900e103751f7fc311701385e01ae84980ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 19/21] fix: the faans of a win are the yaku ids without their
 values

---
 mahjong/record/universe/tenhou/event_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..aca6c41 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,9 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    # yaku lists pairs of id and faans, yakuman lists ids only.
+    yaku_ids = number_list(attr["yaku"])[::2] if "yaku" in attr else number_list(attr["yakuman"])
+    yaku = list(map(lambda t: SCORE_PATTERN[t], yaku_ids))
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From 69cb708579356f00f0a4327f5f0c79f8f13b8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 20/21] fix: the report lists the reasoning of each winning
 pattern

all_win_type_reasoning yields, so the zip that merges the patterns used it up
and neither the sorting nor the per-pattern lists the page shows saw anything.
---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 2c3486e..37cfded 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -232,7 +232,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
     merged_win_reasonings = [
         reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
         for reasoning_same_discard in zip(*win_reasonings)
-- 
2.43.0


From 806d507d54be4e492648d8e7c766a32187b9370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 21/21] fix: a text property without a value stays without one

str(None) and the not-a-number of an empty table cell were stored and read back
as the texts 'None' and 'nan'.
---
 mahjong/record/universe/property_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 9ea3c3a..2c83a57 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -73,7 +73,7 @@ def general_equal(expceted, actual):
 @prop_manager.register(ViewType.str, PropertyMethod.to_str)
 @prop_manager.register(ViewType.str, PropertyMethod.from_str)
 def plain_str(x):
-    return str(x)
+    return None if x is None or x != x else str(x)
 
 
 @prop_manager.register(None, PropertyMethod.to_str)
-- 
2.43.0

