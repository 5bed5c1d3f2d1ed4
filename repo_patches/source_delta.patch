From 5df74fc65e187665d569b5ec97bade2e56dbb7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 01/11] fix: remove_by_key falls through to leaf 0 when the
 only leaf has another key

---
 program/src/state/critbit.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..0d1f601 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -344,13 +344,14 @@ impl<'a, C> Slab<'a, C> {
                 Node::Leaf => {
                     let leaf = &self.leaf_nodes[parent_h as usize];
                     #[cfg(target_os = "solana")]
-                    if leaf.key == search_key {
-                        remove_root = Some(*leaf);
+                    if leaf.key != search_key {
+                        return None;
                     }
                     #[cfg(not(target_os = "solana"))]
-                    if leaf.order_id() == search_key {
-                        remove_root = Some(*leaf);
+                    if leaf.order_id() != search_key {
+                        return None;
                     }
+                    remove_root = Some(*leaf);
                 }
                 Node::Inner => {
                     let node = self.inner_nodes[(!parent_h) as usize];
-- 
2.43.0


From ca281d9a8f250ef58d3e9d996d71a8f81553f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 02/11] fix: mass_cancel_orders builder uses the CloseMarket
 instruction tag

---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From 6a1c86e1a37a4c3abc294bb308123aec558ff582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 03/11] fix: round_price overflows for asks near u64::MAX
 although the result fits

---
 program/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/program/src/utils.rs b/program/src/utils.rs
index 753c0db..b4b64f9 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -56,7 +56,9 @@ pub fn round_price(tick_size: u64, limit_price: u64, side: Side) -> u64 {
         // Round down
         Side::Bid => tick_size * (limit_price / tick_size),
         // Round up
-        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
+        Side::Ask => {
+            tick_size * (limit_price / tick_size + (limit_price % tick_size != 0) as u64)
+        }
     }
 }
 
-- 
2.43.0


From 7b0b10e1c300212e524a401bb407da7db0edb05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 04/11] fix: mass cancellation panics instead of failing when a
 total overflows

---
 program/src/processor/mass_cancel_orders.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/program/src/processor/mass_cancel_orders.rs b/program/src/processor/mass_cancel_orders.rs
index 1faee75..fc9966f 100644
--- a/program/src/processor/mass_cancel_orders.rs
+++ b/program/src/processor/mass_cancel_orders.rs
@@ -100,10 +100,12 @@ where
     for order_id in params.order_ids {
         let slab = order_book.get_tree(get_side_from_order_id(order_id));
         let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
-        total_base_qty = total_base_qty.checked_add(leaf_node.base_quantity).unwrap();
+        total_base_qty = total_base_qty
+            .checked_add(leaf_node.base_quantity)
+            .ok_or(AoError::NumericalOverflow)?;
         total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
             .and_then(|n| n.checked_add(total_quote_qty))
-            .unwrap();
+            .ok_or(AoError::NumericalOverflow)?;
     }
 
     let order_summary = OrderSummary {
-- 
2.43.0


From 701b907d85ab43e9dc845bcf052b1dd6b74acddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 05/11] fix: create_market accepts unusable slab sizes and
 panics on a bad event queue size

---
 program/src/processor/create_market.rs |  4 +++-
 program/src/state/critbit.rs           | 20 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 4df4a09..b7fcb75 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -90,7 +90,9 @@ pub fn process<'a, 'b: 'a, C: Pod>(
         return Err(ProgramError::InvalidArgument);
     }
 
-    EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow()).unwrap();
+    EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow())?;
+    Slab::<C>::check_buffer_size(&accounts.bids.data.borrow())?;
+    Slab::<C>::check_buffer_size(&accounts.asks.data.borrow())?;
 
     let mut market_data = accounts.market.data.borrow_mut();
 
diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 0d1f601..edbd3af 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -3,7 +3,7 @@ use crate::error::AoError;
 use crate::state::AccountTag;
 use borsh::{BorshDeserialize, BorshSerialize};
 use bytemuck::{Pod, Zeroable};
-use solana_program::program_error::ProgramError;
+use solana_program::{msg, program_error::ProgramError};
 // A Slab contains the data for a slab header and two type-split arrays of inner nodes and leaves arranger in a critbit tree
 // whose leaves contain data referencing an order of the orderbook.
 
@@ -132,6 +132,24 @@ impl<'slab, C> Slab<'slab, C> {
             + (desired_order_capacity.checked_sub(1).unwrap())
                 * (LeafNode::LEN + InnerNode::LEN + std::mem::size_of::<C>())
     }
+
+    /// Checks that a buffer of this size holds at least one order and is laid out properly by [`Slab::from_buffer`]
+    pub(crate) fn check_buffer_size(buffer: &[u8]) -> Result<(), ProgramError> {
+        let callback_info_len = std::mem::size_of::<C>();
+        let leaf_size = LeafNode::LEN + callback_info_len;
+        let account_len = buffer.len();
+        if account_len < 8 + SlabHeader::LEN + leaf_size {
+            msg!("The slab account is too small!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        let slack = (account_len - 8 - SlabHeader::LEN - leaf_size) % (leaf_size + InnerNode::LEN);
+        // from_buffer hands the slack over to the callback infos
+        if slack.checked_rem(callback_info_len).unwrap_or(slack) != 0 {
+            msg!("Slab account size is invalid!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        Ok(())
+    }
 }
 
 impl<'a, C: Pod> Slab<'a, C> {
-- 
2.43.0


From 1c273a9f0ed188c43a3bbf378f27179080611cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 06/11] fix: EventQueue.parseFill ignores the head of the queue

---
 js/src/event_queue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index 396195a..b91d8e9 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -266,7 +266,7 @@ export class EventQueue {
       ? Math.min(limit, this.header.count.toNumber())
       : this.header.count.toNumber();
     return [...Array(n).keys()]
-      .map((e) => this.parseEvent(e))
+      .map((e) => this.peekAt(e))
       .filter((e) => e instanceof EventFill);
   }
 
-- 
2.43.0


From fe345a37818568c1cffc859c95ea8002d2f2e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 07/11] fix: find_l2_depth drops all but the first order of the
 last price level

---
 js/wasm/src/critbit.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index adc7beb..604f67f 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -385,12 +385,8 @@ impl<'a> Slab<'a> {
         }
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
-        while result.len() != 2 * depth {
-            let current = search_stack.pop();
-            if current.is_none() {
-                break;
-            }
-            let node = self.get_node(current.unwrap()).unwrap();
+        while let Some(current) = search_stack.pop() {
+            let node = self.get_node(current).unwrap();
             match node {
                 Node::Inner(ref inner) => {
                     search_stack.push(inner.children[increasing as usize]);
@@ -401,6 +397,9 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
+                    } else if result.len() == 2 * depth {
+                        // the last requested level is complete only once the price changes
+                        break;
                     } else {
                         result.push(leaf.base_quantity);
                         result.push(leaf_price);
-- 
2.43.0


From 1f33ac36be78390b96d6a9a962119931536b5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 08/11] fix: Slab decodes shifted offsets when the account is
 not an exact number of slots

---
 js/src/slab.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index c416a06..7d60858 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -160,9 +160,10 @@ export class Slab {
     this.callBackInfoLen = arg.callBackInfoLen;
     const leafSize = LeafNode.LEN + arg.callBackInfoLen;
 
-    const capacity =
+    const capacity = Math.floor(
       (arg.buffer.length - SlabHeader.LEN - leafSize) /
-      (leafSize + InnerNode.LEN);
+        (leafSize + InnerNode.LEN)
+    );
     let innerNodesBufferOffset = SlabHeader.LEN + (capacity + 1) * LeafNode.LEN;
     let leavesBuffer = arg.buffer.slice(SlabHeader.LEN, innerNodesBufferOffset);
     let callbackInfoBufferOffset =
@@ -172,7 +173,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = Math.floor(capacity);
+    this.orderCapacity = capacity;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0


From 8ea6fc18b957a9e1b6038e4ccde1bf1c8f92e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 09/11] fix: account tags reported by the JS decoders do not
 match the program's

---
 js/src/event_queue.ts  | 4 ++--
 js/src/market_state.ts | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index b91d8e9..9e557dc 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -41,8 +41,8 @@ export class EventQueueHeader {
     ],
   ]);
 
-  constructor(arg: { tag: number; head: BN; count: BN; seqNum: BN }) {
-    this.tag = arg.tag as AccountTag;
+  constructor(arg: { tag: BN; head: BN; count: BN; seqNum: BN }) {
+    this.tag = arg.tag.toNumber() as AccountTag;
     this.head = arg.head;
     this.count = arg.count;
     this.seqNum = arg.seqNum;
diff --git a/js/src/market_state.ts b/js/src/market_state.ts
index f6cc42e..3ff75d7 100644
--- a/js/src/market_state.ts
+++ b/js/src/market_state.ts
@@ -10,10 +10,11 @@ import BN from "bn.js";
 /** @enum {number} */
 export enum AccountTag {
   Initialized = 0,
-  Market = 1,
-  EventQueue = 2,
-  Bids = 3,
-  Asks = 4,
+  Market = 128,
+  EventQueue = 129,
+  Bids = 130,
+  Asks = 131,
+  Disabled = 132,
 }
 
 /** @enum {number} */
-- 
2.43.0


From cba5c96c8f38e4cbababec6464181367e9ca2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 10/11] fix: find_l2_depth aborts when asked for a very large
 number of levels

---
 js/wasm/src/critbit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index 604f67f..5c32ca8 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -383,7 +383,7 @@ impl<'a> Slab<'a> {
         if root.is_none() {
             return vec![];
         }
-        let mut result = Vec::with_capacity(2 * depth);
+        let mut result = Vec::new();
         let mut search_stack = vec![root.unwrap()];
         while let Some(current) = search_stack.pop() {
             let node = self.get_node(current).unwrap();
@@ -397,7 +397,7 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
-                    } else if result.len() == 2 * depth {
+                    } else if result.len() / 2 == depth {
                         // the last requested level is complete only once the price changes
                         break;
                     } else {
-- 
2.43.0


From 7a095656382d9bdac7464222e76660a1d06d77e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 11/11] fix: markets whose callback information has no bytes
 panic on the first order

---
 program/src/state/critbit.rs     | 7 ++++++-
 program/src/state/event_queue.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index edbd3af..2e46aba 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -171,7 +171,12 @@ impl<'a, C: Pod> Slab<'a, C> {
             header,
             leaf_nodes: bytemuck::cast_slice_mut::<_, LeafNode>(leaves),
             inner_nodes: bytemuck::cast_slice_mut::<_, InnerNode>(inner_nodes),
-            callback_infos: bytemuck::cast_slice_mut::<_, C>(callback_infos),
+            callback_infos: if callback_info_len == 0 {
+                // There are no bytes to cast, zero-sized infos take no memory
+                vec![C::zeroed(); capacity + 1].leak()
+            } else {
+                bytemuck::cast_slice_mut::<_, C>(callback_infos)
+            },
         })
     }
 }
diff --git a/program/src/state/event_queue.rs b/program/src/state/event_queue.rs
index a53464a..99c2f82 100644
--- a/program/src/state/event_queue.rs
+++ b/program/src/state/event_queue.rs
@@ -169,7 +169,12 @@ impl<'queue, C: Pod> EventQueue<'queue, C> {
         Ok(Self {
             header: bytemuck::from_bytes_mut(header),
             events: bytemuck::cast_slice_mut(events),
-            callback_infos: bytemuck::cast_slice_mut(callback_infos),
+            callback_infos: if callback_info_len == 0 {
+                // There are no bytes to cast, zero-sized infos take no memory
+                vec![C::zeroed(); 2 * capacity].leak()
+            } else {
+                bytemuck::cast_slice_mut(callback_infos)
+            },
         })
     }
 }
-- 
2.43.0

