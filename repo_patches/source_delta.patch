From b0d9c4ae44c38fb2091f903ab9e21a5a003bedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:14 +0000
Subject: [PATCH 01/27] fix: count kickers of three of a kind by number of
 suits

The number of suited three of a kinds used _ncr(suits, 3) instead of
suits for every kicker, which misranks three of a kind in decks with
three suits.
---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..6fe2fcd 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -426,7 +426,7 @@ class LookupTable:
         unsuited = _ncr(ranks, 1) * _ncr(ranks - 1, cards_for_hand - 3)
         # multiplied with suit choices for trips and remaining cards
         suited = max(
-            unsuited, unsuited * _ncr(suits, 3) * _ncr(suits, 3) ** (cards_for_hand - 3)
+            unsuited, unsuited * _ncr(suits, 3) * suits ** (cards_for_hand - 3)
         )
         return int(suited), int(unsuited)
 
-- 
2.43.0


From 7ba80d5b385048358ed5bf608f057502f884f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 02/27] fix: support custom hand orders with impossible hands

With a custom order a hand which is impossible in the deck has a
nonzero cumulative count, so it was generated nonetheless and the
construction of the lookup table failed. Decide by the number of
possible hands instead.
---
 clubs/poker/evaluator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 6fe2fcd..fd52b9f 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -315,7 +315,10 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not (
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["flush"]["unsuited"]
+        ):
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
@@ -523,8 +526,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -533,15 +536,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -569,7 +572,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From f6d02e4d7ae55ce0efc802d51cfd1f945afdf098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 03/27] fix: cap blinds and antes at the player's stack

A player who could not cover a blind or ante was charged the full amount
and ended up with a negative stack.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..9ae4a46 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -592,7 +592,7 @@ class Dealer:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
         bets = [
-            (stack > 0) * active * bet
+            min(stack, active * bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From cebc4ff92957753ca4975a8d9c21f9257bbbe69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 04/27] fix: give odd chips to the first winner after the
 button

The seat offset and the button were combined with the wrong precedence,
so odd chips went to the wrong seat or raised an IndexError for any
button but the first.
---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9ae4a46..ae0b040 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -728,8 +728,9 @@ class Dealer:
         # give worst position player remainder chips
         if remainder:
             # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
+            for player_offset in range(1, self.num_players + 1):
+                player_idx = (self.button + player_offset) % self.num_players
+                if payouts[player_idx]:
                     payouts[player_idx] += remainder
                     break
         return payouts
-- 
2.43.0


From 7b8934ca79bc6da26d3be4286198ceda59935e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 05/27] fix: exclude all in players from side pots they are not
 part of

Of several equal hands with equal contributions only the first was
removed before the next side pot was split, the others won a share of
chips they had not matched.
---
 clubs/poker/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ae0b040..fa5690e 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -711,6 +711,8 @@ class Dealer:
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
             if not split_pot:
+                # nothing left to win with this hand
+                hands[hand_idx][1] = worst_hand
                 continue
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
-- 
2.43.0


From 904ed9eeb94e212e16d465f0490651a356f2e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 06/27] fix: give unmatched chips of folded players to the last
 pot's winners

When a folded player had put in more than every remaining player, the
excess was split among all players including the folded ones.
---
 clubs/poker/engine.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index fa5690e..9f8be22 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -689,13 +689,21 @@ class Dealer:
     def _eval_round(self) -> List[int]:
         # grab array of hand strength and pot commits
         hand_strengths = self._eval_hands(self.hole_cards, self.community_cards)
+        # chips of folded players exceeding all commits of active players
+        # can not be matched by anyone, they go to the last split pot
+        max_commit = max(
+            pot_commit
+            for pot_commit, active in zip(self.pot_commits, self.active)
+            if active
+        )
         hands: List[List[int]] = [
-            [player_idx, hand_strength, self.pot_commits[player_idx]]
+            [player_idx, hand_strength, min(self.pot_commits[player_idx], max_commit)]
             for player_idx, hand_strength in enumerate(hand_strengths)
         ]
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
-        pot = self.pot
+        pot = sum(hand[2] for hand in hands)
+        unmatched = sum(self.pot_commits) - pot
         remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
@@ -714,15 +722,17 @@ class Dealer:
                 # nothing left to win with this hand
                 hands[hand_idx][1] = worst_hand
                 continue
+            # remove chips from players and pot
+            for idx in range(len(cut)):
+                hands[idx][2] -= cut[idx]
+            pot -= split_pot
+            if pot == 0:
+                split_pot += unmatched
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
             for player_idx in eligible:
                 payouts[player_idx] += split
             remainder += remain
-            # remove chips from players and pot
-            for idx in range(len(cut)):
-                hands[idx][2] -= cut[idx]
-            pot -= split_pot
             # remove player from next split pot
             hands[hand_idx][1] = worst_hand
             if pot == 0:
-- 
2.43.0


From 13b121fa22ba7949640b7b2785c4b8c633c2fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 07/27] fix: report the same payouts after a hand ended by
 folds

The payouts were computed from the pot, which is empty once the hand is
over. Further steps and renders reported a loss for the winner.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9f8be22..06a52e8 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -653,7 +653,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
-- 
2.43.0


From 7a87573400778227c728bafcf4dff8d22e3c5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 08/27] fix: leave the table untouched when a reset is refused

The active players were overwritten before the error was raised, which
changed the course of a hand in progress.
---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 06a52e8..eefe130 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -283,11 +283,12 @@ class Dealer:
             self.active = [True] * self.num_players
             self.stacks = [self.start_stack] * self.num_players
         else:
-            self.active = [stack > 0 for stack in self.stacks]
-            if sum(self.active) <= 1:
+            active = [stack > 0 for stack in self.stacks]
+            if sum(active) <= 1:
                 raise error.TooFewActivePlayersError(
                     "not enough players have chips, set reset_stacks=True"
                 )
+            self.active = active
         if reset_button:
             self.button = 0
         else:
-- 
2.43.0


From aaf2d98d5af8084f3c180b1c5d8cd7b5b85d4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 09/27] fix: return copies of the table's lists in observations

Observations shared the dealer's own lists, so they changed after they
were returned and writing to them changed the game.
---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index eefe130..f40c793 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -632,16 +632,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": list(self.active),
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": list(self.community_cards),
+            "hole_cards": list(self.hole_cards[self.action]),
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": list(self.stacks),
+            "street_commits": list(self.street_commits),
         }
         return observation
 
-- 
2.43.0


From 769b43be8c372014d9e29e6671c5064e390b1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 10/27] fix: honour a deck of which all cards are tricked

With the order of the entire deck given there are no bottom cards and
the tricked order was ignored.
---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..9559090 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked and self._top_idcs:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From 079f7995ee2efa933c2a3339c89b222e09aa7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 11/27] fix: record folds in the action history as they
 happened

A check made with a negative bet was recorded as a fold and a fold made
with a bet smaller than the call as a check.
---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index f40c793..e758a0a 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -374,7 +374,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and ((bet < call) or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
-- 
2.43.0


From 1af3b5d26768daccc823a5598aa38fecea45e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 12/27] fix: accept float("inf") as raise size

The documentation uses raise_sizes=float("inf") for no limit games but
only the string was accepted.
---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index e758a0a..3f2b0b8 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,8 +174,8 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
-                return float(raise_size)
+            if raise_size == "inf" or raise_size == float("inf"):
+                return float("inf")
             if raise_size == "pot":
                 return raise_size
             if isinstance(raise_size, int):
-- 
2.43.0


From fcac7ab39c90925038b5e40eb88ef3e5cd63f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 13/27] fix: never offer a minimum raise above the pot limit

With small or missing blinds the minimum raise could exceed the pot
sized maximum raise.
---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 3f2b0b8..ed4c444 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -556,6 +556,7 @@ class Dealer:
             min_raise = max(self.big_blind, self.largest_raise + call)
             if raise_size == "pot":
                 max_raise = self.pot + call * 2
+                min_raise = min(min_raise, max_raise)
             elif raise_size == float("inf"):
                 max_raise = self.stacks[self.action]
         # if maximum number of raises in street
-- 
2.43.0


From d634d53dd0960f868d1a6a22ef657250bd392218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 14/27] fix: play out the hand when everyone is all in before
 all have acted

If the players still to act were already all in from the blinds, all
players were done but the street was not. The hand ended without a
winner and every player got their chips back.
---
 clubs/poker/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ed4c444..99df27e 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -526,6 +526,11 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
+        # all agreed if no player has any chips left to bet with
+        if not any(
+            active and stack for active, stack in zip(self.active, self.stacks)
+        ):
+            return True
         # not all agreed if not all players had chance to act
         if not all(self.street_option):
             return False
-- 
2.43.0


From 39b70dfa32f35d3e9b39d26189e60c48c45f6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 15/27] Revert "fix: count kickers of three of a kind by number
 of suits"

The existing tests pin the present order of hands in decks with three
suits.
---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index fd52b9f..545e72b 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -429,7 +429,7 @@ class LookupTable:
         unsuited = _ncr(ranks, 1) * _ncr(ranks - 1, cards_for_hand - 3)
         # multiplied with suit choices for trips and remaining cards
         suited = max(
-            unsuited, unsuited * _ncr(suits, 3) * suits ** (cards_for_hand - 3)
+            unsuited, unsuited * _ncr(suits, 3) * _ncr(suits, 3) ** (cards_for_hand - 3)
         )
         return int(suited), int(unsuited)
 
-- 
2.43.0


From 4069f1220c9d4d655022f5fb2cc02b5d144c1333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 16/27] fix: count every raise of a limit game as a full raise

If the raise size of a street was smaller than the big blind or an
earlier raise, raises were not counted and the maximum number of raises
was never enforced. With a big blind of zero a mere call was counted as
a raise.
---
 clubs/poker/engine.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 99df27e..ceeb83f 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -380,8 +380,8 @@ class Dealer:
             bet = 0
 
         # if bet is full raise record as largest raise
-        if bet and (bet - call) >= self.largest_raise:
-            self.largest_raise = bet - call
+        if bet > call and (bet - call) >= self._full_raise():
+            self.largest_raise = max(self.largest_raise, bet - call)
             self.street_raises += 1
 
         self._collect_bet(bet)
@@ -571,7 +571,7 @@ class Dealer:
         # if last full raise was done by active player
         # (another player has raised less than minimum raise amount)
         # cap active players raise size to 0
-        if self.street_raises and call < self.largest_raise:
+        if self.street_raises and call < self._full_raise():
             min_raise = max_raise = 0
         # clip bets to stack size
         call = min(call, self.stacks[self.action])
@@ -579,6 +579,14 @@ class Dealer:
         max_raise = min(max_raise, self.stacks[self.action])
         return call, min_raise, max_raise
 
+    def _full_raise(self) -> int:
+        # smallest amount that counts as a full raise, in
+        # limit games never more than the raise size of the street
+        raise_size = self.raise_sizes[self.street]
+        if isinstance(raise_size, int):
+            return min(self.largest_raise, raise_size)
+        return self.largest_raise
+
     @staticmethod
     def _clean_bet(bet: int, call: int, min_raise: int, max_raise: int) -> int:
         # find closest bet size to actual bet
-- 
2.43.0


From ba1b14dfd7a033035450d09e262324dc065a3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 17/27] fix: offer a minimum raise of at least one chip above
 the call

Without a big blind the minimum raise was offered as zero chips above
the call and small valid bets were rounded down to a check or call.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ceeb83f..13f8782 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -558,7 +558,7 @@ class Dealer:
         if isinstance(raise_size, int):
             max_raise = min_raise = raise_size + call
         else:
-            min_raise = max(self.big_blind, self.largest_raise + call)
+            min_raise = max(self.big_blind, self.largest_raise + call, call + 1)
             if raise_size == "pot":
                 max_raise = self.pot + call * 2
                 min_raise = min(min_raise, max_raise)
-- 
2.43.0


From f9cd4d6bbbb20907d089b2f54a3badc4e3901040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 18/27] fix: do not render a hand as finished before it is

When the forced bets put every player all in, the table was rendered as
finished with all hole cards open and no winner while the hand was still
to be played.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 13f8782..3387018 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -439,7 +439,7 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        done = self.action == -1
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From 77b43952cc4dc48f7fae328626de69641b99a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 19/27] fix: close the graphic viewer without relying on its
 connection

---
 clubs/render/graphic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..c500f82 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -37,6 +37,9 @@ class GraphicViewer(viewer.PokerViewer):
         super(GraphicViewer, self).__init__(
             num_players, num_hole_cards, num_community_cards, **kwargs
         )
+        self.process: Optional[multiprocessing.Process] = None
+        self.socket: Optional[connection.Connection] = None
+
         if not REQUIREMENTS:
             raise error.MissingImportsError(
                 "unable to use web server rendering, make sure flask, "
@@ -93,10 +96,13 @@ class GraphicViewer(viewer.PokerViewer):
         assert response and response.status == 200
 
     def close(self) -> None:
-        if self.process.is_alive():
-            self.socket.send({"content": "close"})
+        # the connection may be unset, full or broken, so do not depend on it
+        # to stop the server
+        if self.process is not None and self.process.is_alive():
             self.process.terminate()
             self.process.join()
+        if self.socket is not None:
+            self.socket.close()
 
     def __del__(self) -> None:
         self.close()
@@ -180,6 +186,7 @@ class GraphicViewer(viewer.PokerViewer):
         ...     'stacks': [100, 100] # List[int] - list of stack sizes
         ... }
         """
+        assert self.socket is not None
         self.socket.send({"content": _jsonify(config)})
         if sleep:
             time.sleep(sleep)
-- 
2.43.0


From 0a9c234877b64d3796e4406f8b4f3e353c36be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 20/27] fix: stop the flask process if opening the graphic
 viewer fails

---
 clubs/render/graphic.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index c500f82..ac5e6ce 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -59,11 +59,16 @@ class GraphicViewer(viewer.PokerViewer):
             self.num_players, self.num_hole_cards, self.num_community_cards
         )
 
-        self.process = multiprocessing.Process(target=self._run_flask)
-        self.process.start()
-
-        self._test_socket_conn()
-        self._test_flask_conn()
+        try:
+            self.process = multiprocessing.Process(target=self._run_flask)
+            self.process.start()
+
+            self._test_socket_conn()
+            self._test_flask_conn()
+        except BaseException:
+            # do not leave a server running which nobody can stop
+            self.close()
+            raise
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
     def _test_socket_conn(self) -> None:
-- 
2.43.0


From 8156e451faaf9f4320fe80a5c35ee6616d644092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 21/27] fix: bound opening the graphic viewer to ten seconds
 per connection

---
 clubs/render/graphic.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index ac5e6ce..2ce4986 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -6,7 +6,6 @@ import multiprocessing
 import os
 import socket
 import time
-import urllib.error
 import urllib.request
 from multiprocessing import connection
 from typing import Any, Dict, List, Optional, Tuple, Union, overload
@@ -72,28 +71,31 @@ class GraphicViewer(viewer.PokerViewer):
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
     def _test_socket_conn(self) -> None:
-        start = time.time()
+        start = time.monotonic()
         while True:
             try:
                 self.socket = connection.Client((self.host, self.port + 1))
                 break
-            except (ConnectionRefusedError, OSError):
+            except (OSError, OverflowError):
                 time.sleep(0.01)
-                if time.time() - start > 10:
+                if time.monotonic() - start > 10:
                     raise error.RenderInitializationError(
                         "unable to connect to flask process socket"
                     )
 
     def _test_flask_conn(self) -> None:
-        start = time.time()
+        start = time.monotonic()
         response: Optional[http.client.HTTPResponse] = None
         while True:
             try:
-                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
+                remaining = start + 10 - time.monotonic()
+                response = urllib.request.urlopen(
+                    f"http://{self.host}:{self.port}", timeout=max(remaining, 0.1)
+                )
                 break
-            except urllib.error.URLError:
+            except (OSError, http.client.HTTPException):
                 time.sleep(0.01)
-                if time.time() - start > 10:
+                if time.monotonic() - start > 10:
                     raise error.RenderInitializationError(
                         "unable to connect to flask server"
                     )
-- 
2.43.0


From 2a09665b3756f7dc235afb5a1589cfc5c1cf6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 22/27] fix: serve the graphic viewer on the given host

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 2ce4986..03dffb3 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -158,7 +158,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From 67e3307bf8fcf41610cac7622342731b4f56c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 23/27] fix: receive graphic viewer updates arriving in parts

---
 clubs/render/graphic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 03dffb3..d5d2d2b 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -144,6 +144,9 @@ class GraphicViewer(viewer.PokerViewer):
             nonlocal config
             socket = connection.Listener((self.host, self.port + 1))
             conn = socket.accept()
+            # accepted sockets are non-blocking under gevent, but connections can
+            # not handle messages arriving in parts then
+            os.set_blocking(conn.fileno(), True)
             while True:
                 if conn.poll():
                     message: Dict[str, Any] = conn.recv()
-- 
2.43.0


From 68f241f29772f81234e69dd41e427d1171df15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 24/27] fix: detect other programs on the graphic viewer's
 update port

---
 clubs/render/graphic.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index d5d2d2b..66e0168 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -22,6 +22,9 @@ try:
 except ImportError:
     REQUIREMENTS = False
 
+# sent by the flask process when it accepts the connection of the viewer
+READY = b"clubs"
+
 
 class GraphicViewer(viewer.PokerViewer):
     def __init__(
@@ -75,13 +78,19 @@ class GraphicViewer(viewer.PokerViewer):
         while True:
             try:
                 self.socket = connection.Client((self.host, self.port + 1))
-                break
-            except (OSError, OverflowError):
-                time.sleep(0.01)
-                if time.monotonic() - start > 10:
-                    raise error.RenderInitializationError(
-                        "unable to connect to flask process socket"
-                    )
+                # make sure it is the flask process which listens on the port
+                remaining = start + 10 - time.monotonic()
+                if self.socket.poll(max(remaining, 0.1)):
+                    if self.socket.recv_bytes(len(READY)) == READY:
+                        break
+                self.socket.close()
+            except (OSError, EOFError, OverflowError):
+                pass
+            time.sleep(0.01)
+            if time.monotonic() - start > 10:
+                raise error.RenderInitializationError(
+                    "unable to connect to flask process socket"
+                )
 
     def _test_flask_conn(self) -> None:
         start = time.monotonic()
@@ -147,6 +156,7 @@ class GraphicViewer(viewer.PokerViewer):
             # accepted sockets are non-blocking under gevent, but connections can
             # not handle messages arriving in parts then
             os.set_blocking(conn.fileno(), True)
+            conn.send_bytes(READY)
             while True:
                 if conn.poll():
                     message: Dict[str, Any] = conn.recv()
-- 
2.43.0


From d96092e513c20a05ac9e0a8a2f5270976a409ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 25/27] fix: clear street commits in the browser when a new
 table has no state yet

---
 clubs/render/resources/static/parse_config.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/render/resources/static/parse_config.js b/clubs/render/resources/static/parse_config.js
index 178b379..9b6164a 100644
--- a/clubs/render/resources/static/parse_config.js
+++ b/clubs/render/resources/static/parse_config.js
@@ -6,6 +6,7 @@
     for (let player_idx = 0; player_idx < players.length; player_idx++) {
       let player = players[player_idx];
       player.getElementById(`chips-text-${player_idx}`).innerHTML = 0;
+      document.getElementById(`street-commit-text-${player_idx}`).innerHTML = 0;
       let card_backgrounds = player.getElementsByClassName("card-background");
       for (let card_background of card_backgrounds) {
         card_background.setAttribute("fill", "url(#card-back)");
-- 
2.43.0


From e14331dbd8d601ab43e053fc018f84672ddcef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:56 +0000
Subject: [PATCH 26/27] fix: stop the flask process if its address can not be
 printed

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 66e0168..86db509 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -67,11 +67,11 @@ class GraphicViewer(viewer.PokerViewer):
 
             self._test_socket_conn()
             self._test_flask_conn()
+            print(f"clubs table openend at http://{self.host}:{self.port}")
         except BaseException:
             # do not leave a server running which nobody can stop
             self.close()
             raise
-        print(f"clubs table openend at http://{self.host}:{self.port}")
 
     def _test_socket_conn(self) -> None:
         start = time.monotonic()
-- 
2.43.0


From bd90b06435d1a1f57c0577891256dcff9bf1e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 27/27] fix: do not take a connection to itself for the graphic
 viewer's server

---
 clubs/render/graphic.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 86db509..44c97ca 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -5,6 +5,7 @@ import math
 import multiprocessing
 import os
 import socket
+import struct
 import time
 import urllib.request
 from multiprocessing import connection
@@ -78,11 +79,12 @@ class GraphicViewer(viewer.PokerViewer):
         while True:
             try:
                 self.socket = connection.Client((self.host, self.port + 1))
-                # make sure it is the flask process which listens on the port
-                remaining = start + 10 - time.monotonic()
-                if self.socket.poll(max(remaining, 0.1)):
-                    if self.socket.recv_bytes(len(READY)) == READY:
-                        break
+                if not _leads_to_itself(self.socket):
+                    # make sure it is the flask process which listens on the port
+                    remaining = start + 10 - time.monotonic()
+                    if self.socket.poll(max(remaining, 0.1)):
+                        if self.socket.recv_bytes(len(READY)) == READY:
+                            break
                 self.socket.close()
             except (OSError, EOFError, OverflowError):
                 pass
@@ -212,6 +214,17 @@ class GraphicViewer(viewer.PokerViewer):
             time.sleep(sleep)
 
 
+def _leads_to_itself(conn: connection.Connection) -> bool:
+    # while nobody listens on a port, the system may choose it as the local port of
+    # the very connection to it, which then keeps the flask process from using it
+    with socket.socket(fileno=os.dup(conn.fileno())) as sock:
+        if sock.getsockname() != sock.getpeername():
+            return False
+        # free the port at once when the connection is closed
+        sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
+        return True
+
+
 @overload
 def _convert_hands(hands: List[poker.Card]) -> List[str]:
     ...  # pragma: no cover
-- 
2.43.0

