From c5c41eb05dcc1b41a43fed7ee2e1f5765c4147ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:36 +0000
Subject: [PATCH 01/23] fix: mark shuffled piles as non-materials when encoding
 shuffle messages

---
 src/codec/edo9300_ocgcore_encode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..c3f4660 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -558,6 +558,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		auto* place = meta->mutable_shuffle_pile()->add_places();
 		place->set_con(read_con(data));
 		place->set_loc(LOCATION_MAIN_DECK);
+		place->set_oseq(OSEQ_INVALID);
 		break;
 	}
 	case MSG_SHUFFLE_HAND:
@@ -566,6 +567,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		auto* place = meta->mutable_shuffle_pile()->add_places();
 		place->set_con(read_con(data));
 		place->set_loc(LOCATION_HAND);
+		place->set_oseq(OSEQ_INVALID);
 		auto const count = read<CCount>(data, ".size()");
 		for(CCount i = 0; i < count; i++)
 			skip<CCode>(data, "card code ", static_cast<int>(i));
@@ -597,6 +599,7 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 		auto* place = meta->mutable_shuffle_pile()->add_places();
 		place->set_con(read_con(data));
 		place->set_loc(LOCATION_EXTRA_DECK);
+		place->set_oseq(OSEQ_INVALID);
 		auto const count = read<CCount>(data, ".size()");
 		for(CCount i = 0; i < count; i++)
 			skip<CCode>(data, "card code ", static_cast<int>(i));
-- 
2.43.0


From f12900f8cab83da37e0bb5e3c1932b1cf713693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 02/23] fix: place materials of reloaded field/pendulum zone
 cards in their translated zone

---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c3f4660..b47ca2f 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -892,18 +892,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From 1cc55966a0448b766a4cdd52c77dfcea4d0b9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 03/23] fix: answer race announcements with the full 64-bit
 value

---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..a47b0e6 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -176,7 +176,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: Races are 64 bits wide in the core.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write(ptr, static_cast<uint64_t>(answer.select_race()));
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0


From f16c96fbdab91f5fa600b51a3342661a22079a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 04/23] fix: answer field and pendulum zones with the core's
 spell zone coordinates

---
 src/codec/edo9300_ocgcore_decode.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index a47b0e6..f58174d 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -220,9 +221,23 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			// NOTE: Both the field zone and the pendulum zones are part of the
+			// spell zone in the core.
+			auto loc = p.loc();
+			auto seq = p.seq();
+			if(loc == YGOpen::Duel::LOCATION_FIELD_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 5U; // NOLINT
+			}
+			else if(loc == YGOpen::Duel::LOCATION_PENDULUM_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 6U; // NOLINT
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From a7454b841328e644d6b5d2ad73122580ef4dbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 05/23] fix: swap the material named by the overlay index, not
 by the zone sequence

---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From 476a415487b6e881c3227877f9358b0a88920894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 06/23] fix: remember exactly the cards cut off when a pile
 shrinks

---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From 25b11c1129256db5c3f9bbef9b36da89d45b9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 07/23] fix: initialise the match win reason of the encode
 context

---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From c39191167123ddfe277689014d9dbfe5bf488cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 08/23] fix: select bits beyond the 32nd in wide values

---
 include/ygopen/bit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..c64289b 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -47,7 +47,7 @@ template<typename T>
 	unsigned i = std::numeric_limits<T>::digits;
 	while(i != 0U)
 	{
-		chosen |= x & (1U << (i - 1U));
+		chosen |= x & (T{1U} << (i - 1U));
 		if(popcnt(chosen) >= count)
 			break;
 		i--;
@@ -65,7 +65,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & (T{1U} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 33fd2b9f293ce2cde7cf9e392057178c3ba323e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 09/23] fix: choose no bit from the left when none is requested

---
 include/ygopen/bit.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index c64289b..fd16a18 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,11 +45,9 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
 		chosen |= x & (T{1U} << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
 		i--;
 	}
 	return chosen;
-- 
2.43.0


From 418e20b0a2b68ab635378328f74473866450cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 10/23] fix: reject a controller past the life point array

---
 include/ygopen/client/board.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/board.hpp b/include/ygopen/client/board.hpp
index 3a9995a..36bcf21 100644
--- a/include/ygopen/client/board.hpp
+++ b/include/ygopen/client/board.hpp
@@ -113,7 +113,7 @@ public:
 		-> LPType&
 	{
 		auto const who = static_cast<size_t>(con);
-		assert(who <= lp_.size());
+		assert(who < lp_.size());
 		return lp_[who];
 	}
 
-- 
2.43.0


From 4279ef9d2ba7db02ec622051494ec0cb69a1ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 11/23] fix: fall back to the default first turn method when it
 is not a known one

---
 include/ygopen/server/room.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index 3ff9b23..2ce5b57 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -223,6 +223,8 @@ private:
 		for(auto& v : max_duelists)
 			v = std::clamp<uint32_t>(v, 1, std::tuple_size_v<Team>);
 		// NOTE: FirstTurnDecideMethod defaults to 0 (FTDM_HOST_CHOOSES).
+		if(!YGOpen::Proto::Room::FirstTurnDecideMethod_IsValid(options_.ftdm()))
+			options_.clear_ftdm();
 	}
 
 	template<typename T, typename... Args>
-- 
2.43.0


From 61484c2b6e4b8b7e3f2703b7401def815b95ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 12/23] fix: include what the controller constants need

---
 include/ygopen/duel/constants/controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ygopen/duel/constants/controller.hpp b/include/ygopen/duel/constants/controller.hpp
index cfcf229..bf1c689 100644
--- a/include/ygopen/duel/constants/controller.hpp
+++ b/include/ygopen/duel/constants/controller.hpp
@@ -5,6 +5,7 @@
  */
 #ifndef YGOPEN_DUEL_CONSTANTS_CONTROLLER_HPP
 #define YGOPEN_DUEL_CONSTANTS_CONTROLLER_HPP
+#include <initializer_list>
 
 namespace YGOpen::Duel
 {
-- 
2.43.0


From 5ae1f397ba64efd5cd512a85e388ea34fc635511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 13/23] fix: include the generated client message header by its
 name

---
 include/ygopen/proto/client_msg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/proto/client_msg.hpp b/include/ygopen/proto/client_msg.hpp
index 40de531..8e3542f 100644
--- a/include/ygopen/proto/client_msg.hpp
+++ b/include/ygopen/proto/client_msg.hpp
@@ -6,7 +6,7 @@
 #ifndef YGOPEN_PROTO_CLIENT_MSG_HPP
 #define YGOPEN_PROTO_CLIENT_MSG_HPP
 // clang-format off
-#include <net_client_msg.pb.h>
+#include <client_msg.pb.h>
 // clang-format on
 
 namespace YGOpen::Proto
-- 
2.43.0


From c739acb80847a26d0dabefae03221b4b3a83214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 14/23] fix: include what the board needs

---
 include/ygopen/client/board.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ygopen/client/board.hpp b/include/ygopen/client/board.hpp
index 36bcf21..46c7598 100644
--- a/include/ygopen/client/board.hpp
+++ b/include/ygopen/client/board.hpp
@@ -7,6 +7,7 @@
 #define YGOPEN_CLIENT_BOARD_HPP
 #include <array>
 #include <cassert>
+#include <cstddef>
 #include <ygopen/detail/config.hpp>
 #include <ygopen/duel/constants/controller.hpp>
 
-- 
2.43.0


From 027019397ac1365271408cdee2086a5175cc6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 15/23] fix: include what undoable values need

---
 include/ygopen/client/undoable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ygopen/client/undoable.hpp b/include/ygopen/client/undoable.hpp
index a7d5cc0..cdf7f6d 100644
--- a/include/ygopen/client/undoable.hpp
+++ b/include/ygopen/client/undoable.hpp
@@ -5,6 +5,7 @@
  */
 #ifndef YGOPEN_CLIENT_UNDOABLE_HPP
 #define YGOPEN_CLIENT_UNDOABLE_HPP
+#include <cassert>
 #include <list>
 
 namespace YGOpen::Client
-- 
2.43.0


From 8768d8013042499ad06ae100a1928db395211d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 16/23] fix: include what undoing events needs

---
 include/ygopen/client/undo_parse_event.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ygopen/client/undo_parse_event.hpp b/include/ygopen/client/undo_parse_event.hpp
index 6e1316a..7003016 100644
--- a/include/ygopen/client/undo_parse_event.hpp
+++ b/include/ygopen/client/undo_parse_event.hpp
@@ -6,6 +6,7 @@
 #ifndef YGOPEN_CLIENT_UNDO_PARSE_EVENT
 #define YGOPEN_CLIENT_UNDO_PARSE_EVENT
 #include <ygopen/detail/config.hpp>
+#include <ygopen/duel/constants/controller.hpp>
 #include <ygopen/proto/duel/msg.hpp>
 
 namespace YGOpen::Client
-- 
2.43.0


From 383b5d0283ebd1d70743098ec87d74a4de84b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 17/23] fix: include what the room needs

---
 include/ygopen/server/room.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index 2ce5b57..b3ea5e6 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -5,10 +5,14 @@
  */
 #ifndef YGOPEN_SERVER_ROOM_HPP
 #define YGOPEN_SERVER_ROOM_HPP
+#include <algorithm>
 #include <array>
+#include <cassert>
+#include <functional>
 #include <google/protobuf/arena.h>
 #include <set>
 #include <utility>
+#include <variant>
 #include <ygopen/detail/config.hpp>
 #include <ygopen/proto/deck.hpp>
 #include <ygopen/proto/room.hpp>
-- 
2.43.0


From ed505dd92a7e691158629c4df3b8c2c8818f01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 18/23] fix: guard the default card traits against double
 inclusion

---
 include/ygopen/client/default_card_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ygopen/client/default_card_traits.hpp b/include/ygopen/client/default_card_traits.hpp
index 3d41e5a..7614f4a 100644
--- a/include/ygopen/client/default_card_traits.hpp
+++ b/include/ygopen/client/default_card_traits.hpp
@@ -3,6 +3,8 @@
  *
  * SPDX-License-Identifier: AGPL-3.0-or-later
  */
+#ifndef YGOPEN_CLIENT_DEFAULT_CARD_TRAITS_HPP
+#define YGOPEN_CLIENT_DEFAULT_CARD_TRAITS_HPP
 #include <cstdint>
 #include <vector>
 #include <ygopen/duel/constants_fwd.hpp>
@@ -177,3 +179,5 @@ struct DefaultCardTraits
 };
 
 } // namespace YGOpen::Client
+
+#endif // YGOPEN_CLIENT_DEFAULT_CARD_TRAITS_HPP
-- 
2.43.0


From 07cae431c540d78965e0a74d23e82c9fdda4872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 19/23] fix: forbid copying a frame into an alias of the
 original's cards

---
 include/ygopen/client/frame.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index caf5cb1..ffc8038 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -128,6 +128,12 @@ public:
 		: cards_(builder)
 	{}
 
+	// NOTE: Piles and zones refer to the cards owned by this object.
+	BasicFrame(BasicFrame const&) = delete;
+	BasicFrame(BasicFrame&&) = default;
+	auto operator=(BasicFrame const&) -> BasicFrame& = delete;
+	auto operator=(BasicFrame&&) -> BasicFrame& = default;
+
 	// Const getters.
 
 	[[nodiscard]] constexpr auto builder() const noexcept -> CardBuilder const&
-- 
2.43.0


From a25819fc2c409016a98564a944e2189a65034635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 20/23] fix: forbid copying an undoable value into an alias of
 the original's history

---
 include/ygopen/client/undoable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ygopen/client/undoable.hpp b/include/ygopen/client/undoable.hpp
index cdf7f6d..b0126ee 100644
--- a/include/ygopen/client/undoable.hpp
+++ b/include/ygopen/client/undoable.hpp
@@ -24,6 +24,12 @@ public:
 		: values_(1U), current_(values_.cbegin())
 	{}
 
+	// NOTE: The current value is referred to by its position in the history.
+	BasicUndoable(BasicUndoable const&) = delete;
+	BasicUndoable(BasicUndoable&&) = default;
+	auto operator=(BasicUndoable const&) -> BasicUndoable& = delete;
+	auto operator=(BasicUndoable&&) -> BasicUndoable& = default;
+
 	[[nodiscard]] constexpr operator ValueType const&() const noexcept
 	{
 		return *current_;
-- 
2.43.0


From 6672e8a5e82c136b57c0ad3ace65705870bfa184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 21/23] fix: include what the card's constraints need

---
 include/ygopen/client/card.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ygopen/client/card.hpp b/include/ygopen/client/card.hpp
index e35b3d3..bf73927 100644
--- a/include/ygopen/client/card.hpp
+++ b/include/ygopen/client/card.hpp
@@ -6,6 +6,9 @@
 #ifndef YGOPEN_CLIENT_CARD_HPP
 #define YGOPEN_CLIENT_CARD_HPP
 #include <ygopen/detail/config.hpp>
+#ifdef YGOPEN_HAS_CONCEPTS
+#include <concepts>
+#endif // YGOPEN_HAS_CONCEPTS
 
 namespace YGOpen::Client
 {
-- 
2.43.0


From c26eada6c56d5286a5a7fa3db40ea8bf6a366f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 22/23] fix: the coin toss did not compile with the standard
 generators

---
 include/ygopen/server/room.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index b3ea5e6..4579ec1 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -324,7 +324,7 @@ private:
 		{
 			auto* e = event_();
 			auto* dftr = e->mutable_deciding_first_turn()->mutable_result();
-			auto const winner = uint32_t{rng_() % 2U};
+			auto const winner = static_cast<uint32_t>(rng_() % 2U);
 			dftr->set_team_going_first(winner);
 			dftr->set_coin_result(
 				static_cast<RoomEvent::DecidingFirstTurn::Result::CoinResult>(
-- 
2.43.0


From a4988861f0890230b556fb85f25fcf5213e1feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 23/23] fix: name a dependent type as one

---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index 17c4cab..fe777b9 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -213,7 +213,7 @@ private:
 	};
 
 	using Ops = std::variant<CardOp, ResizeOp, ClearOp>;
-	using OperationCountType = std::deque<Ops>::size_type;
+	using OperationCountType = typename std::deque<Ops>::size_type;
 
 	OperationCountType op_;
 	OperationCountType processed_op_;
-- 
2.43.0

