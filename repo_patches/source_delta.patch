From 2d3a72d072e9d9473ca67fedf4ad77a84b73ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 001/104] fix: do not dereference the log when none is attached

---
 src/openssl_socket.h        | 12 +++++++++---
 src/x/gpio_smbus_motion.x.h |  6 ++++--
 src/x/vmem_iterator.x.h     | 20 +++++++++++++++-----
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ed8e3c8..e7fa33d 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -266,13 +266,19 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
 
-		log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		}
 		int ret = SSL_connect(_ssl);
-		log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		}
 
 		if (ret != 1) {
 			int err = SSL_get_error(_ssl, ret);
-			log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			}
 
 			throw exception<std::runtime_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_connect()", 0x10789, log_local);
 		}
diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 80884b6..b6a053d 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -82,8 +82,10 @@ namespace abc {
 				continue;
 			}
 
-			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-				mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			if (_log != nullptr) {
+				_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
+					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			}
 
 			measurements.accel_x += temp.accel_x;
 			measurements.accel_y += temp.accel_y;
diff --git a/src/x/vmem_iterator.x.h b/src/x/vmem_iterator.x.h
index 5af16f6..693c7a8 100644
--- a/src/x/vmem_iterator.x.h
+++ b/src/x/vmem_iterator.x.h
@@ -154,7 +154,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->next(*this);
@@ -166,7 +168,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -180,7 +184,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->prev(*this);
@@ -192,7 +198,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -247,7 +255,9 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_iterator::deref() Dereferencing invalid iterator", 0x10606);
 		}
 
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		}
 
 		return *p;
 	}
-- 
2.43.0


From f3ef0a8ed6e152ca25cdcbdaa281ff1319c07bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 002/104] fix: insert a range of items into a container in
 order, starting at the given iterator

---
 src/x/vmem_container.x.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f6a69d..0f517d2 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -386,14 +386,26 @@ namespace abc {
 	template <typename InputItr>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::insert(const_iterator itr, InputItr first, InputItr last) {
 		iterator ret(itr);
+		std::size_t inserted_count = 0;
 
 		for (InputItr item = first; item != last; item++) {
-			if (!insert(itr++, *item).can_deref()) {
+			// Inserting may move items among pages. Therefore, the next position is based on the item that was inserted last.
+			iterator inserted = insert(ret, *item);
+
+			if (!inserted.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x1044e, "vmem_container::insert() Breaking from the loop.");
 				}
 				break;
 			}
+
+			ret = ++inserted;
+			inserted_count++;
+		}
+
+		// Go back to the item that was inserted first.
+		for (; inserted_count > 0; inserted_count--) {
+			--ret;
 		}
 
 		return ret;
-- 
2.43.0


From 0ac120d9c35193d0a7844ae6856412ce3c51b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 003/104] fix: keep every page of a container within its
 capacity when inserting without a balanced split

---
 src/x/vmem_container.x.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f517d2..d4c22b9 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -515,7 +515,10 @@ namespace abc {
 		result2 result;
 
 		// Decide whether we should balance before we alter container_page.
-		bool balance = should_balance_insert(itr, container_page);
+		// Inserting before an existing item requires a split regardless of the balancing policy.
+		// Appending to a single-item page must not split it.
+		bool append = itr.item_pos() == vmem_item_pos_nil || itr.item_pos() >= container_page->item_count;
+		bool balance = !append || (page_capacity() > 1 && should_balance_insert(itr, container_page));
 
 		vmem_page<Pool, Log> new_page(nullptr);
 		vmem_container_page<T, Header>* new_container_page = nullptr;
@@ -526,7 +529,7 @@ namespace abc {
 				balance_split(itr.page_pos(), container_page, new_page.pos(), new_container_page);
 			}
 
-			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count) {
+			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()) {
 				// Inserting to the former page.
 				result = insert_with_capacity(itr, item, container_page);
 			}
@@ -593,7 +596,7 @@ namespace abc {
 				(long long)page_pos, (long long)new_page_pos);
 		}
 
-		constexpr std::size_t new_page_item_count = page_capacity() / 2;
+		constexpr std::size_t new_page_item_count = page_capacity() > 1 ? page_capacity() / 2 : 1;
 		constexpr std::size_t page_item_count = page_capacity() - new_page_item_count;
 		std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));
 		new_container_page->item_count = new_page_item_count;
-- 
2.43.0


From 2de02df9a7b52cfbec1b49cef55d933468d295a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 004/104] fix: return a current end iterator when the back page
 of a container is erased

---
 src/x/vmem_container.x.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index d4c22b9..eac4da6 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -783,12 +783,7 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10467, "vmem_container::erase_nostate() Only.");
 				}
 
-				if (container_page->next_page_pos != vmem_page_pos_nil) {
-					result.iterator = iterator(this, container_page->next_page_pos, 0, vmem_iterator_edge::none, _log);
-				}
-				else {
-					result.iterator = end_itr();
-				}
+				vmem_page_pos_t next_page_pos = container_page->next_page_pos;
 
 				// page_leads[0] - none
 				// page_leads[1] - erase
@@ -798,6 +793,14 @@ namespace abc {
 
 				erase_page(page);
 				container_page = nullptr;
+
+				// end() depends on the back page, which may have just been erased.
+				if (next_page_pos != vmem_page_pos_nil) {
+					result.iterator = iterator(this, next_page_pos, 0, vmem_iterator_edge::none, _log);
+				}
+				else {
+					result.iterator = end_itr();
+				}
 			}
 		}
 
-- 
2.43.0


From 0461ce6818fd9b4045032081bb4f646316d085d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 005/104] fix: empty the source of a splice into an empty
 linked list

---
 src/x/vmem_linked.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index f40416c..b7898a7 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -523,6 +523,10 @@ namespace abc {
 		else if (empty()) {
 			// Take over the other state.
 			*_state = *other._state;
+
+			// Empty other state.
+			other._state->front_page_pos = vmem_page_pos_nil;
+			other._state->back_page_pos = vmem_page_pos_nil;
 		}
 		else {
 			// Connect the back page of this and the front page of the other.
-- 
2.43.0


From 0d4fe21c6fd56767b0f7612ebbb135252f26627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 006/104] fix: reset the item count when a container is cleared

---
 src/x/vmem_container.x.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index eac4da6..748b3fc 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1106,6 +1106,8 @@ namespace abc {
 	inline void vmem_container<T, Header, Pool, Log>::clear() noexcept {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
+
+		_state->total_item_count = 0;
 	}
 
 
-- 
2.43.0


From 032e58571ea00fd11d9f6f551270f3860c76fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 007/104] fix: free a page only once when it is erased from a
 container

---
 src/x/vmem_container.x.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 748b3fc..f598b6f 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1044,12 +1044,9 @@ namespace abc {
 				(long long)page_pos);
 		}
 
+		// Unlinking the page also frees it.
 		bool ok = erase_page_pos(page_pos);
 
-		if (ok) {
-			page.free();
-		}
-
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x1047a, "vmem_container::erase_page() Done. ok=%d, page_pos=0x%llx",
 				ok, (long long)page_pos);
-- 
2.43.0


From 3298d6aa01e2c51605ca404f2c2f45f3f9a64176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 008/104] fix: erase exactly the given range of items from a
 container

---
 src/x/vmem_container.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index f598b6f..081cb21 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -725,9 +725,15 @@ namespace abc {
 
 	template <typename T, typename Header, typename Pool, typename Log>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::erase(const_iterator first, const_iterator last) {
+		// Erasing moves items, which invalidates last. Therefore, count the items upfront.
+		std::size_t erase_count = 0;
+		for (iterator count_itr = first; count_itr != last && count_itr.can_deref(); ++count_itr) {
+			erase_count++;
+		}
+
 		iterator itr = first;
 
-		while (itr != last) {
+		for (; erase_count > 0; erase_count--) {
 			if (!itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10464, "vmem_container::erase(first, last) Breaking from the loop.");
-- 
2.43.0


From c5a2cd460f174d4869c76a2e81ef3b6c7f281382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 009/104] fix: merge a container page with one adjacent page at
 a time

---
 src/x/vmem_container.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 081cb21..c92fcfc 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -892,8 +892,8 @@ namespace abc {
 			result = balance_merge_next(itr, page, container_page);
 		}
 
-		// Try the previous page.
-		if (container_page->prev_page_pos != vmem_page_pos_nil) {
+		// If there was no merge with the next page, try the previous page. The result may only reflect one merge.
+		if (result.page_leads[1].operation == vmem_container_page_lead_operation::none && container_page->prev_page_pos != vmem_page_pos_nil) {
 			result = balance_merge_prev(itr, page, container_page);
 		}
 
-- 
2.43.0


From 9f53f54ca309f8a4475fff208c78a3ed1f54ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 010/104] fix: make const lookups in a map compile

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 708a649..5a97d69 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -777,7 +777,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_iterator vmem_map<Key, T, Pool, Log>::find(const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>>(this)->find(key);
+		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->find(key);
 	}
 
 
-- 
2.43.0


From ab470ca83c300180db6f4e8647215420bbcfb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 011/104] fix: do not find a key of a map past the last item of
 a page

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 5a97d69..f167824 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -749,7 +749,7 @@ namespace abc {
 					item_pos++;
 				}
 
-				found = vmem_are_equal(value_page->items[item_pos].key, key);
+				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
 			}
 		}
 
-- 
2.43.0


From 948bf3e17b892be2524b62ba6ab74872eb918b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 012/104] fix: keep the key levels of a map consistent with the
 pages they reference

---
 src/i/vmem_map.i.h |   8 +--
 src/x/vmem_map.x.h | 127 ++++++++++++++++++++++++++++-----------------
 2 files changed, 83 insertions(+), 52 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f4d02c7..1517298 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -458,11 +458,11 @@ namespace abc {
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
 		/**
-		 * @brief				Returns the position of a key on a key page.
-		 * @param key_page_pos	Key page position.
-		 * @param key			Key
+		 * @brief				Returns the item position of the key that references a child page.
+		 * @param key_page_pos	Key page position to start from. Upon return - position of the key page that contains the key.
+		 * @param child_page_pos	Child page position.
 		 */
-		vmem_item_pos_t key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept;
+		vmem_item_pos_t key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t child_page_pos) noexcept;
 
 	public:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index f167824..53ef993 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -432,15 +432,16 @@ namespace abc {
 					key_level_result2 keys_result;
 					if (is_insert) {
 						// page_leads[0] - insert; new page
-						// page_leads[1] - original; used only when a new level is created
-						
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
+						// page_leads[1] - original
+
+						// The new page always follows the original page, and so does its key.
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
+						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos + 1, vmem_iterator_edge::none, _log);
 
 						vmem_map_key<Key> key_item;
 						vmem_copy(key_item.key, page_leads[0].items[0].key);
@@ -449,24 +450,14 @@ namespace abc {
 						keys_result = parent_keys.insert2(parent_keys_itr, key_item);
 					}
 					else {
-						// page_leads[0] - replace or none; doesn't create new leads
-						// page_leads[1] - erase
-
-						if (page_leads[0].operation == vmem_container_page_lead_operation::replace) {
-							vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-							if (parent_item_pos == vmem_item_pos_nil) {
-								ok = false;
-								break;
-							}
+						// page_leads[0] - replace or none; a key may remain lower than the first key of its page
+						// page_leads[1] - erase or none
 
-							key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-							if (parent_keys_itr.can_deref()) {
-								vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
-								vmem_copy(key_ptr->key, page_leads[0].items[1].key);
-							}
+						if (page_leads[1].operation == vmem_container_page_lead_operation::none) {
+							break;
 						}
 
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].items[0].key);
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
@@ -486,13 +477,48 @@ namespace abc {
 						break;
 					}
 
-					if (page_leads[0].operation != vmem_container_page_lead_operation::none || page_leads[1].operation != vmem_container_page_lead_operation::none) {
-						page_leads[0] = keys_result.page_leads[0];
-						page_leads[1] = keys_result.page_leads[1];
-					}
+					page_leads[0] = keys_result.page_leads[0];
+					page_leads[1] = keys_result.page_leads[1];
 
 					key_stack_itr++;
 					path_itr--;
+
+					// If the first key of a remaining key page has changed, change its key on the levels above.
+					if (page_leads[0].operation == vmem_container_page_lead_operation::replace
+						&& (page_leads[1].operation != vmem_container_page_lead_operation::erase || page_leads[1].page_pos != page_leads[0].page_pos)) {
+						vmem_page_pos_t child_page_pos = page_leads[0].page_pos;
+						path_reverse_iterator replace_itr = path_itr;
+
+						while (replace_itr != find_result.path.rbegin()) {
+							vmem_page_pos_t replace_page_pos = *replace_itr;
+							vmem_item_pos_t replace_item_pos = key_item_pos(replace_page_pos, child_page_pos);
+							if (replace_item_pos == vmem_item_pos_nil) {
+								ok = false;
+								break;
+							}
+
+							vmem_page<Pool, Log> replace_page(_pool, replace_page_pos, _log);
+							vmem_map_key_page<Key>* replace_key_page = reinterpret_cast<vmem_map_key_page<Key>*>(replace_page.ptr());
+							if (replace_key_page == nullptr) {
+								ok = false;
+								break;
+							}
+
+							vmem_copy(replace_key_page->items[replace_item_pos].key, page_leads[0].items[1].key);
+
+							// Keep going up only while this is the first key on its page.
+							if (replace_item_pos != 0) {
+								break;
+							}
+
+							child_page_pos = replace_page_pos;
+							replace_itr--;
+						}
+
+						if (!ok) {
+							break;
+						}
+					}
 				} // while (new_page_pos != nil)
 
 				// If we still have a new_page_pos, then we have to add/remove a key level at the top.
@@ -518,17 +544,16 @@ namespace abc {
 						}
 					}
 					else {
-						if (!_key_stack.empty()) {
-							std::size_t top_keys_size = 2;
-							{
-								vmem_container_state top_keys_state = _key_stack.back();
-								vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
-								top_keys_size = top_keys.size();
+						// A top level with less than 2 keys is redundant.
+						while (!_key_stack.empty()) {
+							vmem_container_state top_keys_state = _key_stack.back();
+							vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
+							if (top_keys.size() > 1) {
+								break;
 							}
 
-							if (top_keys_size == 1) {
-								_key_stack.pop_back();
-							}
+							top_keys.clear();
+							_key_stack.pop_back();
 						}
 					}
 
@@ -556,36 +581,42 @@ namespace abc {
 
 
 	template <typename Key, typename T, typename Pool, typename Log>
-	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept {
+	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t child_page_pos) noexcept {
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx..., key=0x%llx...",
-				(long long)key_page_pos, *(long long*)&key);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx, child_page_pos=0x%llx",
+				(long long)key_page_pos, (long long)child_page_pos);
 		}
 
 		vmem_item_pos_t item_pos = vmem_item_pos_nil;
-		vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
 
-		if (page.ptr() == nullptr) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+		// The child may be referenced from the given page or, after a merge across parents, from a page that follows it.
+		while (item_pos == vmem_item_pos_nil && key_page_pos != vmem_page_pos_nil) {
+			vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+
+			if (page.ptr() == nullptr) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+				}
+
+				break;
 			}
-		}
-		else {
+
 			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
 
-			item_pos = 0;
-			for (std::size_t i = 0; i < key_page->item_count && vmem_is_less(key_page->items[i].key, key); i++) {
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10527, "vmem_map::key_item_pos() item[%zu]=0x%llx..., key=0x%llx...",
-						i, *(long long*)&key_page->items[i].key, *(long long*)&key);
+			for (vmem_item_pos_t i = 0; i < key_page->item_count; i++) {
+				if (key_page->items[i].page_pos == child_page_pos) {
+					item_pos = i;
+					break;
 				}
+			}
 
-				item_pos++;
+			if (item_pos == vmem_item_pos_nil) {
+				key_page_pos = key_page->next_page_pos;
 			}
 		}
 
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10528, "vmem_map::key_item_pos() Done. item_pos=0x%x", item_pos);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10528, "vmem_map::key_item_pos() Done. key_page_pos=0x%llx, item_pos=0x%x", (long long)key_page_pos, item_pos);
 		}
 
 		return item_pos;
-- 
2.43.0


From b6f5ee7556b10448feb4758fde644116b1b2df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 013/104] fix: do not hand out a page that could not be taken
 off the free list

---
 src/x/vmem_pool.x.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c29ca93..9844929 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -376,9 +376,14 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				page_pos = free_pages_linked.back();
+				page_pos = root_page->free_pages.back_page_pos;
 				free_pages_linked.pop_back();
 
+				// If the page could not be taken off the free list, it must not be handed out.
+				if (root_page->free_pages.back_page_pos == page_pos) {
+					page_pos = vmem_page_pos_nil;
+				}
+
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10394, "vmem_pool::pop_free_page_pos() Found free page. page_pos=0x%llx", (long long)page_pos);
 				}
-- 
2.43.0


From 4c912268b633a1704267d4855c0079992a3e7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 014/104] fix: handle failures to grow the pool file or to map
 a page

---
 src/x/vmem_pool.x.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 9844929..21fd9b1 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -431,7 +431,12 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x104b7, "vmem_pool::create_page() Start");
 		}
 
-		vmem_page_pos_t page_off = lseek(_fd, 0, SEEK_END);
+		off_t end_off = lseek(_fd, 0, SEEK_END);
+		if (end_off < 0) {
+			return vmem_page_pos_nil;
+		}
+
+		vmem_page_pos_t page_off = end_off;
 		vmem_page_pos_t page_pos = page_off / vmem_page_size;
 
 		if (_log != nullptr) {
@@ -448,6 +453,11 @@ namespace abc {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%l, errno=%d", (long)wb, errno);
 			}
+
+			if (wb > 0) {
+				// Take back the incomplete page. The size of the file must remain a multiple of the page size.
+				(void)!ftruncate(_fd, end_off);
+			}
 		}
 
 		if (_log != nullptr) {
@@ -505,8 +515,10 @@ namespace abc {
 			page_ptr = map_new_page(i, page_pos);
 		}
 
-		// Optimization: Swap this page forward (once) to keep pages sorted by keep_count.
-		optimize_mapped_page(i);
+		if (page_ptr != nullptr) {
+			// Optimization: Swap this page forward (once) to keep pages sorted by keep_count.
+			optimize_mapped_page(i);
+		}
 
 		log_totals();
 
@@ -792,6 +804,10 @@ namespace abc {
 				i, (long long)page_pos, ptr, errno);
 		}
 
+		if (ptr == MAP_FAILED) {
+			return nullptr;
+		}
+
 		_mapped_page_count++;
 
 		// Set the slot.
-- 
2.43.0


From c8828cc5265458abd85ece9395ae9d39e90f4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 015/104] fix: release the mappings and the file when a pool
 cannot be opened

---
 src/i/vmem_pool.i.h |  7 +++++
 src/x/vmem_pool.x.h | 67 ++++++++++++++++++++++++++++-----------------
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/i/vmem_pool.i.h b/src/i/vmem_pool.i.h
index 9c71eb0..5fdb914 100644
--- a/src/i/vmem_pool.i.h
+++ b/src/i/vmem_pool.i.h
@@ -162,6 +162,13 @@ namespace abc {
 		 */
 		void clear_linked(vmem_linked<Pool, Log>& linked);
 
+	// Destructor helpers
+	private:
+		/**
+		 * @brief				Unmaps all mapped pages, and closes the pool file.
+		 */
+		void release() noexcept;
+
 	// Constructor helpers
 	private:
 		/**
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 21fd9b1..5e9ad27 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -50,6 +50,7 @@ namespace abc {
 	template <std::size_t MaxMappedPages, typename Log>
 	inline vmem_pool<MaxMappedPages, Log>::vmem_pool(const char* file_path, Log* log)
 		: _ready(false)
+		, _fd(-1)
 		, _mapped_page_count(0)
 		, _mapped_pages{ }
 		, _mapped_page_totals{ }
@@ -61,13 +62,26 @@ namespace abc {
 
 		verify_args_or_throw(file_path);
 
-		bool is_init = open_pool_or_throw(file_path);
+		bool is_init = true;
 
-		if (!is_init) {
-			init_pool_or_throw();
+		try {
+			is_init = open_pool_or_throw(file_path);
+
+			if (!is_init) {
+				init_pool_or_throw();
+			}
+
+			verify_pool_or_throw();
 		}
+		catch (...) {
+			if (!is_init) {
+				// Don't leave an incomplete pool behind.
+				(void)!ftruncate(_fd, 0);
+			}
 
-		verify_pool_or_throw();
+			release();
+			throw;
+		}
 
 		_ready = true;
 
@@ -102,40 +116,43 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x10710, "vmem_pool::~vmem_pool() Start");
 		}
 
-		if (_ready) {
-			if (_fd < 0) {
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::important, 0x10711, "vmem_pool::~vmem_pool() _ready=true, _fd<0");
-				}
+		release();
 
-				return;
-			}
+		_ready = false;
+		_fd = -1;
+		_mapped_page_count = 0;
+
+		if (_log != nullptr) {
+			_log->put_any(category::abc::vmem, severity::abc::important, 0x10714, "vmem_pool::~vmem_pool() Done");
+		}
+	}
 
-			for (std::size_t i = 0; i < _mapped_page_count; i++) {
-				std::size_t dummy_unmapped_count = 0;
-				std::size_t dummy_empty_i = _mapped_page_count;
 
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
-				}
-				unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
-			}
+	template <std::size_t MaxMappedPages, typename Log>
+	inline void vmem_pool<MaxMappedPages, Log>::release() noexcept {
+		for (std::size_t i = 0; i < _mapped_page_count; i++) {
+			std::size_t dummy_unmapped_count = 0;
+			std::size_t dummy_empty_i = _mapped_page_count;
 
 			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::~vmem_pool() Close file fd=%d", _fd);
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::release() Unmap page i=%zu", i);
 			}
-			close(_fd);
+			unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
 		}
 
-		_ready = false;
-		_fd = -1;
 		_mapped_page_count = 0;
 
-		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::important, 0x10714, "vmem_pool::~vmem_pool() Done");
+		if (_fd >= 0) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::release() Close file fd=%d", _fd);
+			}
+			close(_fd);
 		}
+
+		_fd = -1;
 	}
 
+
 	template <std::size_t MaxMappedPages, typename Log>
 	inline void vmem_pool<MaxMappedPages, Log>::verify_args_or_throw(const char* file_path) {
 		if (Pool::max_mapped_pages() < vmem_min_mapped_pages) {
-- 
2.43.0


From 207a901b7b9fe8ca54e009f1c3ca713019b3f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 016/104] fix: do not relink a page list halfway when a
 neighbour of the erased page cannot be mapped

---
 src/i/vmem_linked.i.h |  5 +--
 src/x/vmem_linked.x.h | 80 +++++++++++++++++++++++++------------------
 2 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/i/vmem_linked.i.h b/src/i/vmem_linked.i.h
index 09f4d43..00c4302 100644
--- a/src/i/vmem_linked.i.h
+++ b/src/i/vmem_linked.i.h
@@ -188,10 +188,11 @@ namespace abc {
 		/**
 		 * @brief				Links a page at the given iterator.
 		 * @param itr			Iterator.
-		 * @param back_page_pos	Position of the back page.
+		 * @param next_page_pos	Receives the position of the page after the unlinked one.
+		 * @param back_page_pos	Receives the position of the new back page when the back page has been unlinked.
 		 * @return				`true` == success; `false` = error.
 		 */
-		bool erase_nostate(const_iterator itr, vmem_page_pos_t& back_page_pos) noexcept;
+		bool erase_nostate(const_iterator itr, vmem_page_pos_t& next_page_pos, vmem_page_pos_t& back_page_pos) noexcept;
 
 	private:
 		friend iterator_state;
diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index b7898a7..ad6d142 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -379,15 +379,20 @@ namespace abc {
 		}
 
 		// The result, upon success, is the next of itr.
-		iterator result = next(itr);
+		iterator result = end();
 
+		vmem_page_pos_t next_page_pos = vmem_page_pos_nil;
 		vmem_page_pos_t back_page_pos = vmem_page_pos_nil;
-		bool ok = erase_nostate(itr, back_page_pos);
+		bool ok = erase_nostate(itr, next_page_pos, back_page_pos);
 
 		if (ok) {
+			if (next_page_pos != vmem_page_pos_nil) {
+				result = iterator(this, next_page_pos, vmem_item_pos_nil, vmem_iterator_edge::none, _log);
+			}
+
 			// Update the front page pos.
 			if (_state->front_page_pos == itr.page_pos()) {
-				_state->front_page_pos = result.page_pos();
+				_state->front_page_pos = next_page_pos;
 			}
 
 			// Update the back page pos.
@@ -395,9 +400,6 @@ namespace abc {
 				_state->back_page_pos = back_page_pos;
 			}
 		}
-		else {
-			result = end();
-		}
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x1049a, "vmem_linked::erase() Done. itr.page_pos=0x%llx, result.page_pos=0x%llx, result.edge=%u",
@@ -409,7 +411,7 @@ namespace abc {
 
 
 	template <typename Pool, typename Log>
-	inline bool vmem_linked<Pool, Log>::erase_nostate(const_iterator itr, vmem_page_pos_t& back_page_pos) noexcept {
+	inline bool vmem_linked<Pool, Log>::erase_nostate(const_iterator itr, vmem_page_pos_t& next_page_pos, vmem_page_pos_t& back_page_pos) noexcept {
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x1049b, "vmem_linked::erase_nostate() Start. itr.page_pos=0x%llx", (long long)itr.page_pos());
 		}
@@ -427,45 +429,53 @@ namespace abc {
 			}
 		}
 
-		if (ok) {
-			if (linked_page->prev_page_pos != vmem_page_pos_nil) {
-				// There is a prev page.
-				vmem_page<Pool, Log> prev_page(_pool, linked_page->prev_page_pos, _log);
-				vmem_linked_page* prev_linked_page = reinterpret_cast<vmem_linked_page*>(prev_page.ptr());
+		// Load both neighbors before changing any of them.
+		vmem_page<Pool, Log> prev_page(nullptr);
+		vmem_page<Pool, Log> next_page(nullptr);
+		vmem_linked_page* prev_linked_page = nullptr;
+		vmem_linked_page* next_linked_page = nullptr;
 
-				if (prev_linked_page == nullptr) {
-					ok = false;
+		if (ok && linked_page->prev_page_pos != vmem_page_pos_nil) {
+			// There is a prev page.
+			prev_page = vmem_page<Pool, Log>(_pool, linked_page->prev_page_pos, _log);
+			prev_linked_page = reinterpret_cast<vmem_linked_page*>(prev_page.ptr());
 
-					if (_log != nullptr) {
-						_log->put_any(category::abc::vmem, severity::warning, 0x1049d, "vmem_linked::erase_nostate() Could not load prev page.");
-					}
-				}
+			if (prev_linked_page == nullptr) {
+				ok = false;
 
-				if (ok) {
-					prev_linked_page->next_page_pos = linked_page->next_page_pos;
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x1049d, "vmem_linked::erase_nostate() Could not load prev page.");
 				}
 			}
 		}
 
-		if (ok) {
-			if (linked_page->next_page_pos != vmem_page_pos_nil) {
-				// There is a next page.
-				vmem_page<Pool, Log> next_page(_pool, linked_page->next_page_pos, _log);
-				vmem_linked_page* next_linked_page = reinterpret_cast<vmem_linked_page*>(next_page.ptr());
+		if (ok && linked_page->next_page_pos != vmem_page_pos_nil) {
+			// There is a next page.
+			next_page = vmem_page<Pool, Log>(_pool, linked_page->next_page_pos, _log);
+			next_linked_page = reinterpret_cast<vmem_linked_page*>(next_page.ptr());
 
-				if (next_linked_page == nullptr) {
-					ok = false;
+			if (next_linked_page == nullptr) {
+				ok = false;
 
-					if (_log != nullptr) {
-						_log->put_any(category::abc::vmem, severity::warning, 0x1049e, "vmem_linked::erase_nostate() Could not load next page.");
-					}
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x1049e, "vmem_linked::erase_nostate() Could not load next page.");
 				}
+			}
+		}
 
-				if (ok) {
-					next_linked_page->prev_page_pos = linked_page->prev_page_pos;
-				}
+		if (ok) {
+			if (prev_linked_page != nullptr) {
+				prev_linked_page->next_page_pos = linked_page->next_page_pos;
 			}
-			else {
+
+			if (next_linked_page != nullptr) {
+				next_linked_page->prev_page_pos = linked_page->prev_page_pos;
+			}
+
+			// Export back the next page pos.
+			next_page_pos = linked_page->next_page_pos;
+
+			if (linked_page->next_page_pos == vmem_page_pos_nil) {
 				// There is no next page, which means we are deleting the back page.
 				// Export back the new back page pos.
 				back_page_pos = linked_page->prev_page_pos;
@@ -473,6 +483,8 @@ namespace abc {
 		}
 
 		if (ok) {
+			prev_page = nullptr;
+			next_page = nullptr;
 			linked_page = nullptr;
 			page.free();
 		}
-- 
2.43.0


From 9537aee8484825311ebf0fa0fe4b9bc4986c8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 017/104] fix: keep the size of a container whose pages could
 not be released by clear

---
 src/x/vmem_container.x.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index c92fcfc..5ca518e 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1110,7 +1110,10 @@ namespace abc {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
 
-		_state->total_item_count = 0;
+		// The pages remain if they could not be released.
+		if (linked.empty()) {
+			_state->total_item_count = 0;
+		}
 	}
 
 
-- 
2.43.0


From f51b53c5f4ba32bc2a54a2e46a763e497ab86b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 018/104] fix: persistent string stream lost, invented and
 stopped at bytes

---
 src/x/vmem_string.x.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 548aa61..f6ea087 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -57,8 +57,10 @@ namespace abc {
 		, _get_itr(std::move(other._get_itr))
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		base::setg(&_get_ch, &_get_ch + 1, &_get_ch + 1);
+		// Keep the char that hasn't been consumed, and the char that hasn't been flushed.
+		base::setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + 1);
 		base::setp(&_put_ch, &_put_ch + 1);
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._string = nullptr;
 		other._log = nullptr;
@@ -70,32 +72,39 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::underflow() {
-		if (_get_itr == nullptr) {
-			_get_itr = _string->begin();
+		// The iterator stays on the last char read, so that chars appended later are seen.
+		Iterator next_itr = _string->begin();
+		if (_get_itr != nullptr) {
+			next_itr = _get_itr;
+			++next_itr;
 		}
 
-		if (!_get_itr.can_deref())
+		if (!next_itr.can_deref())
 		{
 			return std::char_traits<Char>::eof();
 		}
 
-		_get_ch = *_get_itr++;
+		_get_itr = next_itr;
+		_get_ch = *_get_itr;
 
 		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return std::char_traits<Char>::to_int_type(_get_ch);
 	}
 
+
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		_string->push_back(_put_ch);
-		_string->push_back(ch);
+		sync();
 
-		base::setp(&_put_ch, &_put_ch + 1);
+		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
+			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+		}
 
-		return ch;
+		return std::char_traits<Char>::not_eof(ch);
 	}
 
+
     template <typename Char, typename Pool, typename Log>
 	inline int vmem_basic_string_streambuf<Char, Pool, Log>::sync() {
 		if (base::pptr() != &_put_ch) {
-- 
2.43.0


From 6feb4062c07502ba9e46538100ca4ea4923cdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 019/104] fix: a pool file without a start page was opened

---
 src/x/vmem_pool.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 5e9ad27..bd9edf5 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -187,7 +187,8 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::debug, 0x1037f, "vmem_pool::open_pool_or_throw() size=0x%llx", (long long)file_size);
 		}
 
-		if ((file_size & (vmem_page_size - 1)) != 0) {
+		// There are always whole pages, and never a root page without a start page.
+		if ((file_size & (vmem_page_size - 1)) != 0 || file_size == vmem_page_size) {
 			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - size", 0x10380, _log);
 		}
 
-- 
2.43.0


From bf8ccf7f653b60ef25f90bcd163cc717fdf5eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 020/104] fix: reading a JSON string ran past the buffer, or
 forever when it was cut off or did not fit

---
 src/json.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/json.h b/src/json.h
index 102102c..df36861 100644
--- a/src/json.h
+++ b/src/json.h
@@ -213,7 +213,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +284,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
@@ -387,9 +387,20 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						if (gcount == size - 1) {
+							base::set_fail();
+							break;
+						}
 						buffer[gcount++] = ech;
 					}
 				}
+				else {
+					// Either the content doesn't fit, or the input ends before the string.
+					if (!base::fail()) {
+						base::set_bad();
+					}
+					break;
+				}
 			}
 		}
 
@@ -591,7 +602,7 @@ namespace abc {
 	inline std::size_t json_istream<MaxLevels, Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
 		std::size_t gcount = 0;
 
-		while (base::is_good() && predicate(peek_char())) {
+		while (base::is_good() && predicate(peek_char()) && base::is_good()) {
 			if (gcount == size - 1) {
 				base::set_fail();
 				break;
@@ -609,7 +620,7 @@ namespace abc {
 	inline std::size_t json_istream<MaxLevels, Log>::skip_chars(CharPredicate&& predicate) {
 		std::size_t gcount = 0;
 		
-		while (base::is_good() && predicate(peek_char())) {
+		while (base::is_good() && predicate(peek_char()) && base::is_good()) {
 			base::get();
 			gcount++;
 		}
-- 
2.43.0


From 0b36ff1befdae011017b7f9cd907276d853aebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 021/104] fix: JSON \u escapes followed by a hex digit failed,
 and unknown escapes were read as chars

---
 src/json.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index df36861..10f9cd0 100644
--- a/src/json.h
+++ b/src/json.h
@@ -551,6 +551,14 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				if (log_local != nullptr) {
+					log_local->put_any(category::abc::json, severity::important, 0x10834, "json_istream::get_escaped_char() ch='%c' (\\u%4.4x). Unknown escape sequence.", ch, ch);
+				}
+
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
@@ -582,7 +590,16 @@ namespace abc {
 
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_istream<MaxLevels, Log>::get_hex(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_hex, buffer, size);
+		// The number of hex digits is fixed. The next char may be a hex digit that is not part of the sequence.
+		std::size_t gcount = 0;
+
+		while (gcount < size - 1 && base::is_good() && ascii::is_hex(peek_char())) {
+			buffer[gcount++] = base::get();
+		}
+
+		buffer[gcount] = '\0';
+
+		return gcount;
 	}
 
 
-- 
2.43.0


From 020e855509a2a0993c87fb63f25cd01656820d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 022/104] fix: a long JSON number overflowed its buffer, and
 one without digits was read as zero

---
 src/json.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/json.h b/src/json.h
index 10f9cd0..218fbe0 100644
--- a/src/json.h
+++ b/src/json.h
@@ -426,30 +426,46 @@ namespace abc {
 		std::size_t gcount = 0;
 		char digits[19 + 6 + 1];
 
+		auto get_one = [this, &digits, &gcount]() {
+			if (gcount == sizeof(digits) - 1) {
+				base::set_fail();
+			}
+			else {
+				digits[gcount++] = base::get();
+			}
+		};
+
+		auto get_many = [this, &digits, &gcount]() {
+			std::size_t count = get_digits(digits + gcount, sizeof(digits) - gcount);
+			gcount += count;
+
+			// There must be at least one digit.
+			base::set_bad_if(count == 0 && !base::fail());
+		};
+
 		char ch = peek_char();
 		if (ch == '+' || ch == '-') {
-			digits[gcount++] = base::get();
+			get_one();
 		}
 
-		gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+		get_many();
 
 		ch = peek_char();
 		if (ch == '.') {
-			digits[gcount++] = base::get();
-
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			get_one();
+			get_many();
 		}
 
 		ch = peek_char();
 		if (ch == 'e' || ch == 'E') {
-			digits[gcount++] = base::get();
+			get_one();
 
 			ch = peek_char();
 			if (ch == '+' || ch == '-') {
-				digits[gcount++] = base::get();
+				get_one();
 			}
 
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			get_many();
 		}
 
 		digits[gcount] = '\0';
-- 
2.43.0


From 1bb6ddf46ae849ea699eb38dc0a997cbcab0120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 023/104] fix: skipping a JSON value that was cut off never
 ended

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 218fbe0..5a4a58d 100644
--- a/src/json.h
+++ b/src/json.h
@@ -185,7 +185,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (state::levels() > base_levels && base::is_good());
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
-- 
2.43.0


From 7913da8d9f339128f652683012d48f2808fdf6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 024/104] fix: JSON strings were written without escaping

---
 src/i/json.i.h | 918 +++++++++++++++++++++++++------------------------
 src/json.h     |  28 +-
 2 files changed, 489 insertions(+), 457 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..09fa72f 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -1,455 +1,463 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <cstddef>
-#include <streambuf>
-#include <istream>
-#include <ostream>
-#include <bitset>
-
-#include "stream.i.h"
-#include "log.i.h"
-
-
-namespace abc {
-
-	namespace json {
-		using item_t = std::uint16_t;
-
-		namespace item {
-			constexpr item_t none			= 0x0000;
-
-			constexpr item_t null			= 0x0001;
-			constexpr item_t boolean		= 0x0002;
-			constexpr item_t number			= 0x0004;
-			constexpr item_t string			= 0x0008;
-			constexpr item_t begin_array	= 0x0010;
-			constexpr item_t end_array		= 0x0020;
-			constexpr item_t begin_object	= 0x0040;
-			constexpr item_t end_object		= 0x0080;
-			constexpr item_t property		= 0x0100;
-		}
-
-
-		/**
-		 * @brief			JSON value union.
-		 */
-		union value_t {
-			bool	boolean;
-			double	number;
-			char	string[1];
-			char	property[1];
-		};
-		
-		/**
-		 * @brief			JSON token.
-		 */
-		struct token_t {
-			item_t	item;
-			value_t	value;
-		};
-
-
-		using level_t = bool;
-
-		namespace level {
-			constexpr level_t	array	= false;
-			constexpr level_t	object	= true;
-		}
-	}
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. State keeper.
-	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels, typename Log>
-	class json_state {
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_state(Log* log);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_state(json_state&& other) = default;
-
-		/**
-		 * @brief			Copy constructor.
-		 */
-		json_state(const json_state& other) = default;
-
-	public:
-		/**
-		 * @brief			Returns the current number of nesting levels.
-		 */
-		std::size_t levels() const noexcept;
-
-		/**
-		 * @brief			Returns the current nesting level - object or array.
-		 */
-		json::level_t top_level() const noexcept;
-
-	protected:
-		/**
-		 * @brief			Resets the state.
-		 */
-		void reset() noexcept;
-
-		/**
-		 * @brief			Returns whether a property name is expected.
-		 */
-		bool expect_property() const noexcept;
-
-		/**
-		 * @brief			Sets whether a property name is expected.
-		 */
-		void set_expect_property(bool expect) noexcept;
-
-		/**
-		 * @brief			Pushes a nesting level into the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error. 
-		 */
-		bool push_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error.
-		 */
-		bool pop_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Returns the Log pointer.
-		 */
-		Log* log() const noexcept;
-
-	private:
-		/**
-		 * @brief			Flag whether a property name is expected.
-		 */
-		bool _expect_property;
-
-		/**
-		 * @brief			Current top position on the stack.
-		 */
-		std::size_t _level_top;
-
-		/**
-		 * @brief			Nesting level stack.
-		 */
-		std::bitset<MaxLevels> _level_stack;
-
-		/**
-		 * @brief			The log passed in to the constructor.
-		 */
-		Log* _log;
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON input stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_istream : public istream, public json_state<MaxLevels, Log> {
-		using base  = istream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_istream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_istream(json_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_istream(const json_istream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a JSON value from the stream.
-		 * @return			The type of value skipped.
-		 */
-		json::item_t skip_value();
-
-	protected:
-		/**
-		 * @brief			Gets or skips a JSON token from the stream.
-		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
-		 * @param size		Buffer size.
-		 * @return			The type of token.
-		 */
-		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Gets or skips a JSON number from the stream.
-		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
-		 */
-		void get_or_skip_number(double* buffer);
-
-		/**
-		 * @brief			Gets or skips a JSON string from the stream.
-		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the string.
-		 */
-		std::size_t get_or_skip_string(char* buffer, std::size_t size);
-
-	protected:
-		/**
-		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
-		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
-		 * @param literal	Sequence of chars.
-		 */
-		void get_literal(const char* literal);
-
-		/**
-		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
-		 * @return			The char.
-		 */
-		char get_escaped_char();
-
-		/**
-		 * @brief			Gets or skips the inner part of a string.
-		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the content read. 
-		 */
-		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_hex(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a decimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_digits(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of spaces from the stream.
-		 * @return			Number of chars skipped.
-		 */
-		std::size_t skip_spaces();
-
-		/**
-		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
-		 * @param predicate	Predicate.
-		 * @param buffer	Buffer
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of chars that match a predicate.
-		 * @param predicate	Predicate.
-		 * @return			Number of chars read.
-		 */
-		std::size_t skip_chars(CharPredicate&& predicate);
-
-		/**
-		 * @brief			Reads a char from the stream.
-		 * @return			The char read.
-		 */
-		char get_char();
-
-		/**
-		 * @brief			Returns the next char from the stream without advancing.
-		 */
-		char peek_char();
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON output stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
-		using base  = ostream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_ostream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_ostream(json_ostream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_ostream(const json_ostream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Writes a JSON token to the stream from the buffer.
-		 * @param buffer	Buffer.
-		 * @param size		Content size.
-		 */
-		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a space to the stream.
-		 */
-		void put_space();
-
-		/**
-		 * @brief			Writes a tab to the stream.
-		 */
-		void put_tab();
-
-		/**
-		 * @brief			Writes a CR to the stream.
-		 */
-		void put_cr();
-
-		/**
-		 * @brief			Writes a LF to the stream.
-		 */
-		void put_lf();
-
-		/**
-		 * @brief			Writes `null` to the stream.
-		 */
-		void put_null();
-
-		/**
-		 * @brief			Writes a boolean value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_boolean(bool value);
-
-		/**
-		 * @brief			Writes a number value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_number(double value);
-
-		/**
-		 * @brief			Writes a string value to the stream.
-		 * @param buffer	The string to write.
-		 * @param size		String length.
-		 */
-		void put_string(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a property name to the stream.
-		 * @param buffer	The property name to write.
-		 * @param size		Property name length.
-		 */
-		void put_property(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes `[` to the stream.
-		 */
-		void put_begin_array();
-
-		/**
-		 * @brief			Writes `]` to the stream.
-		 */
-		void put_end_array();
-
-		/**
-		 * @brief			Writes `{` to the stream.
-		 */
-		void put_begin_object();
-
-		/**
-		 * @brief			Writes `}` to the stream.
-		 */
-		void put_end_object();
-
-	public:
-		/**
-		 * @brief			Writes a sequence of chars to the stream.
-		 * @param buffer	The sequence to write.
-		 * @param size		Sequence length.
-		 */
-		std::size_t put_chars(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a char to the stream.
-		 * @param ch		Char to write.
-		 * @return			1 = success. 0 = error.
-		 */
-		std::size_t put_char(char ch);
-
-	private:
-		/**
-		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
-		 */
-		bool _skip_comma;
-	};
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <cstddef>
+#include <streambuf>
+#include <istream>
+#include <ostream>
+#include <bitset>
+
+#include "stream.i.h"
+#include "log.i.h"
+
+
+namespace abc {
+
+	namespace json {
+		using item_t = std::uint16_t;
+
+		namespace item {
+			constexpr item_t none			= 0x0000;
+
+			constexpr item_t null			= 0x0001;
+			constexpr item_t boolean		= 0x0002;
+			constexpr item_t number			= 0x0004;
+			constexpr item_t string			= 0x0008;
+			constexpr item_t begin_array	= 0x0010;
+			constexpr item_t end_array		= 0x0020;
+			constexpr item_t begin_object	= 0x0040;
+			constexpr item_t end_object		= 0x0080;
+			constexpr item_t property		= 0x0100;
+		}
+
+
+		/**
+		 * @brief			JSON value union.
+		 */
+		union value_t {
+			bool	boolean;
+			double	number;
+			char	string[1];
+			char	property[1];
+		};
+		
+		/**
+		 * @brief			JSON token.
+		 */
+		struct token_t {
+			item_t	item;
+			value_t	value;
+		};
+
+
+		using level_t = bool;
+
+		namespace level {
+			constexpr level_t	array	= false;
+			constexpr level_t	object	= true;
+		}
+	}
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. State keeper.
+	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels, typename Log>
+	class json_state {
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_state(Log* log);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_state(json_state&& other) = default;
+
+		/**
+		 * @brief			Copy constructor.
+		 */
+		json_state(const json_state& other) = default;
+
+	public:
+		/**
+		 * @brief			Returns the current number of nesting levels.
+		 */
+		std::size_t levels() const noexcept;
+
+		/**
+		 * @brief			Returns the current nesting level - object or array.
+		 */
+		json::level_t top_level() const noexcept;
+
+	protected:
+		/**
+		 * @brief			Resets the state.
+		 */
+		void reset() noexcept;
+
+		/**
+		 * @brief			Returns whether a property name is expected.
+		 */
+		bool expect_property() const noexcept;
+
+		/**
+		 * @brief			Sets whether a property name is expected.
+		 */
+		void set_expect_property(bool expect) noexcept;
+
+		/**
+		 * @brief			Pushes a nesting level into the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error. 
+		 */
+		bool push_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error.
+		 */
+		bool pop_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Returns the Log pointer.
+		 */
+		Log* log() const noexcept;
+
+	private:
+		/**
+		 * @brief			Flag whether a property name is expected.
+		 */
+		bool _expect_property;
+
+		/**
+		 * @brief			Current top position on the stack.
+		 */
+		std::size_t _level_top;
+
+		/**
+		 * @brief			Nesting level stack.
+		 */
+		std::bitset<MaxLevels> _level_stack;
+
+		/**
+		 * @brief			The log passed in to the constructor.
+		 */
+		Log* _log;
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON input stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_istream : public istream, public json_state<MaxLevels, Log> {
+		using base  = istream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_istream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_istream(json_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_istream(const json_istream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a JSON value from the stream.
+		 * @return			The type of value skipped.
+		 */
+		json::item_t skip_value();
+
+	protected:
+		/**
+		 * @brief			Gets or skips a JSON token from the stream.
+		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
+		 * @param size		Buffer size.
+		 * @return			The type of token.
+		 */
+		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Gets or skips a JSON number from the stream.
+		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
+		 */
+		void get_or_skip_number(double* buffer);
+
+		/**
+		 * @brief			Gets or skips a JSON string from the stream.
+		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the string.
+		 */
+		std::size_t get_or_skip_string(char* buffer, std::size_t size);
+
+	protected:
+		/**
+		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
+		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
+		 * @param literal	Sequence of chars.
+		 */
+		void get_literal(const char* literal);
+
+		/**
+		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
+		 * @return			The char.
+		 */
+		char get_escaped_char();
+
+		/**
+		 * @brief			Gets or skips the inner part of a string.
+		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the content read. 
+		 */
+		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_hex(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a decimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_digits(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of spaces from the stream.
+		 * @return			Number of chars skipped.
+		 */
+		std::size_t skip_spaces();
+
+		/**
+		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
+		 * @param predicate	Predicate.
+		 * @param buffer	Buffer
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of chars that match a predicate.
+		 * @param predicate	Predicate.
+		 * @return			Number of chars read.
+		 */
+		std::size_t skip_chars(CharPredicate&& predicate);
+
+		/**
+		 * @brief			Reads a char from the stream.
+		 * @return			The char read.
+		 */
+		char get_char();
+
+		/**
+		 * @brief			Returns the next char from the stream without advancing.
+		 */
+		char peek_char();
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON output stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
+		using base  = ostream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_ostream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_ostream(json_ostream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_ostream(const json_ostream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Writes a JSON token to the stream from the buffer.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 */
+		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a space to the stream.
+		 */
+		void put_space();
+
+		/**
+		 * @brief			Writes a tab to the stream.
+		 */
+		void put_tab();
+
+		/**
+		 * @brief			Writes a CR to the stream.
+		 */
+		void put_cr();
+
+		/**
+		 * @brief			Writes a LF to the stream.
+		 */
+		void put_lf();
+
+		/**
+		 * @brief			Writes `null` to the stream.
+		 */
+		void put_null();
+
+		/**
+		 * @brief			Writes a boolean value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_boolean(bool value);
+
+		/**
+		 * @brief			Writes a number value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_number(double value);
+
+		/**
+		 * @brief			Writes a string value to the stream.
+		 * @param buffer	The string to write.
+		 * @param size		String length.
+		 */
+		void put_string(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a property name to the stream.
+		 * @param buffer	The property name to write.
+		 * @param size		Property name length.
+		 */
+		void put_property(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes `[` to the stream.
+		 */
+		void put_begin_array();
+
+		/**
+		 * @brief			Writes `]` to the stream.
+		 */
+		void put_end_array();
+
+		/**
+		 * @brief			Writes `{` to the stream.
+		 */
+		void put_begin_object();
+
+		/**
+		 * @brief			Writes `}` to the stream.
+		 */
+		void put_end_object();
+
+	public:
+		/**
+		 * @brief			Writes a sequence of chars to the stream.
+		 * @param buffer	The sequence to write.
+		 * @param size		Sequence length.
+		 */
+		std::size_t put_chars(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a char to the stream.
+		 * @param ch		Char to write.
+		 * @return			1 = success. 0 = error.
+		 */
+		std::size_t put_char(char ch);
+
+	protected:
+		/**
+		 * @brief			Writes the content of a string or a property, escaping chars that can't be there as they are.
+		 * @param buffer	The content.
+		 * @param size		Content length.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
+	private:
+		/**
+		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
+		 */
+		bool _skip_comma;
+	};
+
+}
+
diff --git a/src/json.h b/src/json.h
index 5a4a58d..ab203c5 100644
--- a/src/json.h
+++ b/src/json.h
@@ -892,7 +892,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\"", 1);
 
 		_skip_comma = false;
@@ -921,7 +921,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\":", 2);
 
 		_skip_comma = true;
@@ -1048,6 +1048,30 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline void json_ostream<MaxLevels, Log>::put_string_content(const char* buffer, std::size_t size) {
+		std::size_t done = 0;
+
+		for (std::size_t i = 0; i < size; i++) {
+			char ch = buffer[i];
+
+			if (ascii::json::is_string_content(ch) && !(0 <= ch && ch < ' ')) {
+				continue;
+			}
+
+			// Write the plain chars so far, and then the escape sequence.
+			put_chars(buffer + done, i - done);
+			done = i + 1;
+
+			char escaped[6 + 1];
+			std::size_t escaped_size = std::snprintf(escaped, sizeof(escaped), ascii::json::is_string_content(ch) ? "\\u%04x" : "\\%c", ch);
+			put_chars(escaped, escaped_size);
+		}
+
+		put_chars(buffer + done, size - done);
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_ostream<MaxLevels, Log>::put_char(char ch) {
 		if (base::is_good()) {
-- 
2.43.0


From 1c5ac3d2b04abc8140608894b5263036ff80e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 025/104] fix: numbers that JSON cannot represent were written

---
 src/json.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/json.h b/src/json.h
index ab203c5..c08fa30 100644
--- a/src/json.h
+++ b/src/json.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cmath>
 #include <cstdlib>
 #include <cstdio>
 
@@ -857,6 +858,16 @@ namespace abc {
 			return;
 		}
 
+		if (!std::isfinite(value)) {
+			Log* log_local = state::log();
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::json, severity::important, 0x10835, "json_ostream::put_number() Not a finite number.");
+			}
+
+			base::set_bad();
+			return;
+		}
+
 		if (state::levels() > 0 && state::top_level() == json::level::array && !_skip_comma) {
 			put_chars(",", 1);
 		}
-- 
2.43.0


From 1777fed5c9376ae3b98b3de2662f7e9c819fdfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 026/104] fix: a JSON number at the end of the stream was
 reported as a failure

---
 src/json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json.h b/src/json.h
index c08fa30..c48eaa4 100644
--- a/src/json.h
+++ b/src/json.h
@@ -451,13 +451,14 @@ namespace abc {
 
 		get_many();
 
-		ch = peek_char();
+		// A number may be the last thing in the stream.
+		ch = base::is_good() ? peek_char() : '\0';
 		if (ch == '.') {
 			get_one();
 			get_many();
 		}
 
-		ch = peek_char();
+		ch = base::is_good() ? peek_char() : '\0';
 		if (ch == 'e' || ch == 'E') {
 			get_one();
 
-- 
2.43.0


From bc0a6a92bf3d69a03cd60690b89e79e5a1759a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 027/104] fix: some JSON numbers were written with too few
 digits to be read back

---
 src/json.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json.h b/src/json.h
index c48eaa4..7aad9b3 100644
--- a/src/json.h
+++ b/src/json.h
@@ -875,6 +875,10 @@ namespace abc {
 
 		char literal[19 + 6 + 1];
 		std::size_t size = std::snprintf(literal, sizeof(literal), "%.16lg", value);
+		if (std::strtod(literal, nullptr) != value) {
+			// 16 digits are not sufficient for every number.
+			size = std::snprintf(literal, sizeof(literal), "%.17lg", value);
+		}
 
 		put_chars(literal, size);
 
-- 
2.43.0


From c0071d6c88d1113c2af231caa5e320130b0494bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 028/104] fix: resetting an HTTP stream did not compile

---
 src/http.h     | 14 ++++++++++++++
 src/i/http.i.h | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..1bddf9f 100644
--- a/src/http.h
+++ b/src/http.h
@@ -99,6 +99,13 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void http_istream<Log>::reset(http::item_t next) {
+		base::reset();
+		state::reset(next);
+	}
+
+
 	template <typename Log>
 	inline void http_istream<Log>::set_gstate(std::size_t gcount, http::item_t next) {
 		base::set_gcount(gcount);
@@ -407,6 +414,13 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void http_ostream<Log>::reset(http::item_t next) {
+		base::reset();
+		state::reset(next);
+	}
+
+
 	template <typename Log>
 	inline void http_ostream<Log>::set_pstate(http::item_t next) {
 		base::flush();
diff --git a/src/i/http.i.h b/src/i/http.i.h
index a4ee1d1..a4e7935 100644
--- a/src/i/http.i.h
+++ b/src/i/http.i.h
@@ -169,6 +169,12 @@ namespace abc {
 		void get_body(char* buffer, std::size_t size);
 
 	protected:
+		/**
+		 * @brief			Resets the stream state as well as the HTTP state.
+		 * @param next		Next expected item.
+		 */
+		void reset(http::item_t next);
+
 		/**
 		 * @brief			Set the gcount and the next expected item for this input stream.
 		 * @param gcount	gcount.
@@ -332,6 +338,12 @@ namespace abc {
 		void put_body(const char* buffer, std::size_t size = size::strlen);
 
 	protected:
+		/**
+		 * @brief			Resets the stream state as well as the HTTP state.
+		 * @param next		Next expected item.
+		 */
+		void reset(http::item_t next);
+
 		/**
 		 * @brief			Sets the next expected item for the stream.
 		 * @param next		The next expected item.
-- 
2.43.0


From 0a1909bd5297653db3b516844b1ee1fb56f5aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 029/104] restore the line endings of json.i.h

---
 src/i/json.i.h | 926 ++++++++++++++++++++++++-------------------------
 1 file changed, 463 insertions(+), 463 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 09fa72f..4aea190 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -1,463 +1,463 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <cstddef>
-#include <streambuf>
-#include <istream>
-#include <ostream>
-#include <bitset>
-
-#include "stream.i.h"
-#include "log.i.h"
-
-
-namespace abc {
-
-	namespace json {
-		using item_t = std::uint16_t;
-
-		namespace item {
-			constexpr item_t none			= 0x0000;
-
-			constexpr item_t null			= 0x0001;
-			constexpr item_t boolean		= 0x0002;
-			constexpr item_t number			= 0x0004;
-			constexpr item_t string			= 0x0008;
-			constexpr item_t begin_array	= 0x0010;
-			constexpr item_t end_array		= 0x0020;
-			constexpr item_t begin_object	= 0x0040;
-			constexpr item_t end_object		= 0x0080;
-			constexpr item_t property		= 0x0100;
-		}
-
-
-		/**
-		 * @brief			JSON value union.
-		 */
-		union value_t {
-			bool	boolean;
-			double	number;
-			char	string[1];
-			char	property[1];
-		};
-		
-		/**
-		 * @brief			JSON token.
-		 */
-		struct token_t {
-			item_t	item;
-			value_t	value;
-		};
-
-
-		using level_t = bool;
-
-		namespace level {
-			constexpr level_t	array	= false;
-			constexpr level_t	object	= true;
-		}
-	}
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. State keeper.
-	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels, typename Log>
-	class json_state {
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_state(Log* log);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_state(json_state&& other) = default;
-
-		/**
-		 * @brief			Copy constructor.
-		 */
-		json_state(const json_state& other) = default;
-
-	public:
-		/**
-		 * @brief			Returns the current number of nesting levels.
-		 */
-		std::size_t levels() const noexcept;
-
-		/**
-		 * @brief			Returns the current nesting level - object or array.
-		 */
-		json::level_t top_level() const noexcept;
-
-	protected:
-		/**
-		 * @brief			Resets the state.
-		 */
-		void reset() noexcept;
-
-		/**
-		 * @brief			Returns whether a property name is expected.
-		 */
-		bool expect_property() const noexcept;
-
-		/**
-		 * @brief			Sets whether a property name is expected.
-		 */
-		void set_expect_property(bool expect) noexcept;
-
-		/**
-		 * @brief			Pushes a nesting level into the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error. 
-		 */
-		bool push_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error.
-		 */
-		bool pop_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Returns the Log pointer.
-		 */
-		Log* log() const noexcept;
-
-	private:
-		/**
-		 * @brief			Flag whether a property name is expected.
-		 */
-		bool _expect_property;
-
-		/**
-		 * @brief			Current top position on the stack.
-		 */
-		std::size_t _level_top;
-
-		/**
-		 * @brief			Nesting level stack.
-		 */
-		std::bitset<MaxLevels> _level_stack;
-
-		/**
-		 * @brief			The log passed in to the constructor.
-		 */
-		Log* _log;
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON input stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_istream : public istream, public json_state<MaxLevels, Log> {
-		using base  = istream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_istream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_istream(json_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_istream(const json_istream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a JSON value from the stream.
-		 * @return			The type of value skipped.
-		 */
-		json::item_t skip_value();
-
-	protected:
-		/**
-		 * @brief			Gets or skips a JSON token from the stream.
-		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
-		 * @param size		Buffer size.
-		 * @return			The type of token.
-		 */
-		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Gets or skips a JSON number from the stream.
-		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
-		 */
-		void get_or_skip_number(double* buffer);
-
-		/**
-		 * @brief			Gets or skips a JSON string from the stream.
-		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the string.
-		 */
-		std::size_t get_or_skip_string(char* buffer, std::size_t size);
-
-	protected:
-		/**
-		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
-		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
-		 * @param literal	Sequence of chars.
-		 */
-		void get_literal(const char* literal);
-
-		/**
-		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
-		 * @return			The char.
-		 */
-		char get_escaped_char();
-
-		/**
-		 * @brief			Gets or skips the inner part of a string.
-		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the content read. 
-		 */
-		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_hex(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a decimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_digits(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of spaces from the stream.
-		 * @return			Number of chars skipped.
-		 */
-		std::size_t skip_spaces();
-
-		/**
-		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
-		 * @param predicate	Predicate.
-		 * @param buffer	Buffer
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of chars that match a predicate.
-		 * @param predicate	Predicate.
-		 * @return			Number of chars read.
-		 */
-		std::size_t skip_chars(CharPredicate&& predicate);
-
-		/**
-		 * @brief			Reads a char from the stream.
-		 * @return			The char read.
-		 */
-		char get_char();
-
-		/**
-		 * @brief			Returns the next char from the stream without advancing.
-		 */
-		char peek_char();
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON output stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
-		using base  = ostream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_ostream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_ostream(json_ostream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_ostream(const json_ostream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Writes a JSON token to the stream from the buffer.
-		 * @param buffer	Buffer.
-		 * @param size		Content size.
-		 */
-		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a space to the stream.
-		 */
-		void put_space();
-
-		/**
-		 * @brief			Writes a tab to the stream.
-		 */
-		void put_tab();
-
-		/**
-		 * @brief			Writes a CR to the stream.
-		 */
-		void put_cr();
-
-		/**
-		 * @brief			Writes a LF to the stream.
-		 */
-		void put_lf();
-
-		/**
-		 * @brief			Writes `null` to the stream.
-		 */
-		void put_null();
-
-		/**
-		 * @brief			Writes a boolean value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_boolean(bool value);
-
-		/**
-		 * @brief			Writes a number value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_number(double value);
-
-		/**
-		 * @brief			Writes a string value to the stream.
-		 * @param buffer	The string to write.
-		 * @param size		String length.
-		 */
-		void put_string(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a property name to the stream.
-		 * @param buffer	The property name to write.
-		 * @param size		Property name length.
-		 */
-		void put_property(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes `[` to the stream.
-		 */
-		void put_begin_array();
-
-		/**
-		 * @brief			Writes `]` to the stream.
-		 */
-		void put_end_array();
-
-		/**
-		 * @brief			Writes `{` to the stream.
-		 */
-		void put_begin_object();
-
-		/**
-		 * @brief			Writes `}` to the stream.
-		 */
-		void put_end_object();
-
-	public:
-		/**
-		 * @brief			Writes a sequence of chars to the stream.
-		 * @param buffer	The sequence to write.
-		 * @param size		Sequence length.
-		 */
-		std::size_t put_chars(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a char to the stream.
-		 * @param ch		Char to write.
-		 * @return			1 = success. 0 = error.
-		 */
-		std::size_t put_char(char ch);
-
-	protected:
-		/**
-		 * @brief			Writes the content of a string or a property, escaping chars that can't be there as they are.
-		 * @param buffer	The content.
-		 * @param size		Content length.
-		 */
-		void put_string_content(const char* buffer, std::size_t size);
-
-	private:
-		/**
-		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
-		 */
-		bool _skip_comma;
-	};
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <cstddef>
+#include <streambuf>
+#include <istream>
+#include <ostream>
+#include <bitset>
+
+#include "stream.i.h"
+#include "log.i.h"
+
+
+namespace abc {
+
+	namespace json {
+		using item_t = std::uint16_t;
+
+		namespace item {
+			constexpr item_t none			= 0x0000;
+
+			constexpr item_t null			= 0x0001;
+			constexpr item_t boolean		= 0x0002;
+			constexpr item_t number			= 0x0004;
+			constexpr item_t string			= 0x0008;
+			constexpr item_t begin_array	= 0x0010;
+			constexpr item_t end_array		= 0x0020;
+			constexpr item_t begin_object	= 0x0040;
+			constexpr item_t end_object		= 0x0080;
+			constexpr item_t property		= 0x0100;
+		}
+
+
+		/**
+		 * @brief			JSON value union.
+		 */
+		union value_t {
+			bool	boolean;
+			double	number;
+			char	string[1];
+			char	property[1];
+		};
+		
+		/**
+		 * @brief			JSON token.
+		 */
+		struct token_t {
+			item_t	item;
+			value_t	value;
+		};
+
+
+		using level_t = bool;
+
+		namespace level {
+			constexpr level_t	array	= false;
+			constexpr level_t	object	= true;
+		}
+	}
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. State keeper.
+	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels, typename Log>
+	class json_state {
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_state(Log* log);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_state(json_state&& other) = default;
+
+		/**
+		 * @brief			Copy constructor.
+		 */
+		json_state(const json_state& other) = default;
+
+	public:
+		/**
+		 * @brief			Returns the current number of nesting levels.
+		 */
+		std::size_t levels() const noexcept;
+
+		/**
+		 * @brief			Returns the current nesting level - object or array.
+		 */
+		json::level_t top_level() const noexcept;
+
+	protected:
+		/**
+		 * @brief			Resets the state.
+		 */
+		void reset() noexcept;
+
+		/**
+		 * @brief			Returns whether a property name is expected.
+		 */
+		bool expect_property() const noexcept;
+
+		/**
+		 * @brief			Sets whether a property name is expected.
+		 */
+		void set_expect_property(bool expect) noexcept;
+
+		/**
+		 * @brief			Pushes a nesting level into the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error. 
+		 */
+		bool push_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error.
+		 */
+		bool pop_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Returns the Log pointer.
+		 */
+		Log* log() const noexcept;
+
+	private:
+		/**
+		 * @brief			Flag whether a property name is expected.
+		 */
+		bool _expect_property;
+
+		/**
+		 * @brief			Current top position on the stack.
+		 */
+		std::size_t _level_top;
+
+		/**
+		 * @brief			Nesting level stack.
+		 */
+		std::bitset<MaxLevels> _level_stack;
+
+		/**
+		 * @brief			The log passed in to the constructor.
+		 */
+		Log* _log;
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON input stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_istream : public istream, public json_state<MaxLevels, Log> {
+		using base  = istream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_istream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_istream(json_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_istream(const json_istream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a JSON value from the stream.
+		 * @return			The type of value skipped.
+		 */
+		json::item_t skip_value();
+
+	protected:
+		/**
+		 * @brief			Gets or skips a JSON token from the stream.
+		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
+		 * @param size		Buffer size.
+		 * @return			The type of token.
+		 */
+		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Gets or skips a JSON number from the stream.
+		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
+		 */
+		void get_or_skip_number(double* buffer);
+
+		/**
+		 * @brief			Gets or skips a JSON string from the stream.
+		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the string.
+		 */
+		std::size_t get_or_skip_string(char* buffer, std::size_t size);
+
+	protected:
+		/**
+		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
+		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
+		 * @param literal	Sequence of chars.
+		 */
+		void get_literal(const char* literal);
+
+		/**
+		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
+		 * @return			The char.
+		 */
+		char get_escaped_char();
+
+		/**
+		 * @brief			Gets or skips the inner part of a string.
+		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the content read. 
+		 */
+		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_hex(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a decimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_digits(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of spaces from the stream.
+		 * @return			Number of chars skipped.
+		 */
+		std::size_t skip_spaces();
+
+		/**
+		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
+		 * @param predicate	Predicate.
+		 * @param buffer	Buffer
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of chars that match a predicate.
+		 * @param predicate	Predicate.
+		 * @return			Number of chars read.
+		 */
+		std::size_t skip_chars(CharPredicate&& predicate);
+
+		/**
+		 * @brief			Reads a char from the stream.
+		 * @return			The char read.
+		 */
+		char get_char();
+
+		/**
+		 * @brief			Returns the next char from the stream without advancing.
+		 */
+		char peek_char();
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON output stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
+		using base  = ostream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_ostream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_ostream(json_ostream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_ostream(const json_ostream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Writes a JSON token to the stream from the buffer.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 */
+		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a space to the stream.
+		 */
+		void put_space();
+
+		/**
+		 * @brief			Writes a tab to the stream.
+		 */
+		void put_tab();
+
+		/**
+		 * @brief			Writes a CR to the stream.
+		 */
+		void put_cr();
+
+		/**
+		 * @brief			Writes a LF to the stream.
+		 */
+		void put_lf();
+
+		/**
+		 * @brief			Writes `null` to the stream.
+		 */
+		void put_null();
+
+		/**
+		 * @brief			Writes a boolean value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_boolean(bool value);
+
+		/**
+		 * @brief			Writes a number value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_number(double value);
+
+		/**
+		 * @brief			Writes a string value to the stream.
+		 * @param buffer	The string to write.
+		 * @param size		String length.
+		 */
+		void put_string(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a property name to the stream.
+		 * @param buffer	The property name to write.
+		 * @param size		Property name length.
+		 */
+		void put_property(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes `[` to the stream.
+		 */
+		void put_begin_array();
+
+		/**
+		 * @brief			Writes `]` to the stream.
+		 */
+		void put_end_array();
+
+		/**
+		 * @brief			Writes `{` to the stream.
+		 */
+		void put_begin_object();
+
+		/**
+		 * @brief			Writes `}` to the stream.
+		 */
+		void put_end_object();
+
+	public:
+		/**
+		 * @brief			Writes a sequence of chars to the stream.
+		 * @param buffer	The sequence to write.
+		 * @param size		Sequence length.
+		 */
+		std::size_t put_chars(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a char to the stream.
+		 * @param ch		Char to write.
+		 * @return			1 = success. 0 = error.
+		 */
+		std::size_t put_char(char ch);
+
+	protected:
+		/**
+		 * @brief			Writes the content of a string or a property, escaping chars that can't be there as they are.
+		 * @param buffer	The content.
+		 * @param size		Content length.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
+	private:
+		/**
+		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
+		 */
+		bool _skip_comma;
+	};
+
+}
+
-- 
2.43.0


From 4339b76492410f2f6feecbbd048a81bb9c64f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 030/104] fix: splitting a resource ran past it after a
 trailing separator, and lost parameters after an empty one

---
 src/http.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/http.h b/src/http.h
index 1bddf9f..d0ee426 100644
--- a/src/http.h
+++ b/src/http.h
@@ -806,12 +806,15 @@ namespace abc {
 		// path?param1=...&param2=...
 		char* param = std::strchr(buffer, '?');
 
-		while (param < end && param != nullptr) {
+		while (param != nullptr && param < end) {
 			*param++ = '\0';
 
-			if (param < end && *param != '\0') {
-				param = std::strchr(param, '&');
+			// An empty parameter would end the list of parameters.
+			while (param < end && *param == '&') {
+				param++;
 			}
+
+			param = param < end ? std::strchr(param, '&') : nullptr;
 		}
 	}
 
@@ -825,6 +828,10 @@ namespace abc {
 		const char* param = buffer + std::strlen(buffer) + 1;
 
 		while (param < end && *param != '\0') {
+			while (*param == '&') {
+				param++;
+			}
+
 			if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {
 				return param + parameter_name_len + 1;
 			}
-- 
2.43.0


From 2ca44388bac1522176e3a7706356958d6d07fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 031/104] fix: reading a resource into a buffer of one byte
 overflowed it

---
 src/http.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/http.h b/src/http.h
index d0ee426..a4eada8 100644
--- a/src/http.h
+++ b/src/http.h
@@ -775,9 +775,16 @@ namespace abc {
 
 		base::assert_next(http::item::resource);
 
-		// The resource is terminated by an extra '\0', so it could be split.
-		std::size_t gcount = base::get_prints(buffer, size - 1);
-		buffer[gcount + 1] = '\0';
+		std::size_t gcount = 0;
+		if (size < 2) {
+			base::get_prints(buffer, size);
+			base::set_fail();
+		}
+		else {
+			// The resource is terminated by an extra '\0', so it could be split.
+			gcount = base::get_prints(buffer, size - 1);
+			buffer[gcount + 1] = '\0';
+		}
 
 		base::skip_spaces();
 
-- 
2.43.0


From 5bbdb0fd43b0ed9a59e844919d1ad007de306058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 032/104] fix: reading a short HTTP body delivered an extra
 byte

---
 src/http.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index a4eada8..88f8b66 100644
--- a/src/http.h
+++ b/src/http.h
@@ -330,7 +330,12 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			char ch = base::get();
+
+			// The end of the stream is not a byte.
+			if (base::is_good()) {
+				buffer[gcount++] = ch;
+			}
 		}
 
 		return gcount;
-- 
2.43.0


From 6dc4717fd5a49c88b4ebebbd836444d20c91f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 033/104] fix: moving a stream lost its state and its count of
 bytes read

---
 src/stream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index fc0626e..f9bea96 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -40,7 +40,10 @@ namespace abc {
 	template <typename Stream>
 	inline stream<Stream>::stream(stream&& other)
 		: base(std::move(other)) {
+		// Setting the buffer resets the state.
+		std::ios_base::iostate state = other.rdstate();
 		base::rdbuf(other.rdbuf());
+		base::clear(state);
 	}
 
 
@@ -136,7 +139,8 @@ namespace abc {
 
 
 	inline istream::istream(istream&& other)
-		: base(std::move(other)) {
+		: base(std::move(other))
+		, _gcount(other._gcount) {
 	}
 
 
-- 
2.43.0


From 429a6924a25b6ffb37656ba02f12dc507046d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 034/104] fix: reading accepted an empty HTTP method, resource,
 version or status code

---
 src/http.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/http.h b/src/http.h
index 88f8b66..0a32ede 100644
--- a/src/http.h
+++ b/src/http.h
@@ -142,7 +142,11 @@ namespace abc {
 		}
 
 		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
+			std::size_t gcount_local = get_digits(buffer + gcount, size - gcount);
+			gcount += gcount_local;
+
+			// There must be at least one digit.
+			base::set_bad_if(gcount_local == 0 && !base::fail());
 		}
 
 		if (gcount == size - 1) {
@@ -160,7 +164,11 @@ namespace abc {
 		}
 
 		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
+			std::size_t gcount_local = get_digits(buffer + gcount, size - gcount);
+			gcount += gcount_local;
+
+			// There must be at least one digit.
+			base::set_bad_if(gcount_local == 0 && !base::fail());
 		}
 
 		skip_spaces();
@@ -760,6 +768,7 @@ namespace abc {
 		base::assert_next(http::item::method);
 
 		std::size_t gcount = base::get_token(buffer, size);
+		base::set_bad_if(gcount == 0 && !base::fail());
 
 		base::skip_spaces();
 
@@ -789,6 +798,7 @@ namespace abc {
 			// The resource is terminated by an extra '\0', so it could be split.
 			gcount = base::get_prints(buffer, size - 1);
 			buffer[gcount + 1] = '\0';
+			base::set_bad_if(gcount == 0 && !base::fail());
 		}
 
 		base::skip_spaces();
@@ -984,6 +994,7 @@ namespace abc {
 		base::assert_next(http::item::status_code);
 
 		std::size_t gcount = base::get_digits(buffer, size);
+		base::set_bad_if(gcount == 0 && !base::fail());
 
 		base::skip_spaces();
 
-- 
2.43.0


From d817d6570df57a20c2f0a931a20d7454efd68542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 035/104] fix: writing accepted invalid HTTP parts and cut them
 silently

---
 src/http.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/http.h b/src/http.h
index 0a32ede..359514b 100644
--- a/src/http.h
+++ b/src/http.h
@@ -463,7 +463,7 @@ namespace abc {
 			gcount = put_bytes("HTTP/", 5);
 		}
 
-		if (base::is_good() && gcount < size) {
+		if (base::is_good()) {
 			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
 			if (gcount_local == 0) {
 				base::set_bad();
@@ -473,8 +473,8 @@ namespace abc {
 			}
 		}
 
-		if (base::is_good() && gcount < size) {
-			if (buffer[gcount] != '.') {
+		if (base::is_good()) {
+			if (gcount == size || buffer[gcount] != '.') {
 				base::set_bad();
 			}
 			else {
@@ -483,7 +483,7 @@ namespace abc {
 			}
 		}
 
-		if (base::is_good() && gcount < size) {
+		if (base::is_good()) {
 			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
 			if (gcount_local == 0) {
 				base::set_bad();
@@ -521,7 +521,7 @@ namespace abc {
 		std::size_t pcount = put_token(buffer, size);
 
 		if (base::is_good()) {
-			if (pcount < size) {
+			if (size == 0 || pcount < size) {
 				base::set_bad();
 			}
 		}
@@ -906,8 +906,11 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_token(buffer, size);
+		base::set_bad_if(size == 0 || pcount < size);
 
-		base::put_space();
+		if (base::is_good()) {
+			base::put_space();
+		}
 
 		base::set_pstate(http::item::resource);
 
@@ -931,8 +934,11 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_prints(buffer, size);
+		base::set_bad_if(size == 0 || pcount < size);
 
-		base::put_space();
+		if (base::is_good()) {
+			base::put_space();
+		}
 
 		base::set_pstate(http::item::protocol);
 
@@ -1077,8 +1083,11 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_digits(buffer, size);
+		base::set_bad_if(size == 0 || pcount < size);
 
-		base::put_space();
+		if (base::is_good()) {
+			base::put_space();
+		}
 
 		base::set_pstate(http::item::reason_phrase);
 
@@ -1104,6 +1113,7 @@ namespace abc {
 			}
 
 			pcount = base::put_prints_and_spaces(buffer, size);
+			base::set_bad_if(pcount < size);
 		}
 
 		base::put_crlf();
-- 
2.43.0


From 195aa2b7187f8c354f502bad6dc56004ce7e413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 036/104] fix: Feb 29 and the dates after Feb 2100 were
 converted wrongly

---
 src/timestamp.h | 72 ++++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 49 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..2231d11 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -71,6 +71,7 @@ namespace abc {
 	static constexpr date_count_t days_per_100_years_leap = 25 * days_per_4_years;
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
+	static constexpr date_count_t days_from_mar_1_1600_to_epoch = 135080;
 
 
 	// --------------------------------------------------------------
@@ -163,62 +164,35 @@ namespace abc {
 
 		date_count_t remaining_days = days_since_epoch;
 
-		// Since Feb 29 is the phantom day of the year, we'll make it the last day of the year by moving the epoch to Mar 1, 1970.
-		// We can do that, unless we are in Jan or Feb 1970.
-
-		// Jan
-		if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 31)) {
-			return;
-		}
-
-		// Feb
-		if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 28)) {
-			return;
-		}
-
-		// Now the epoch is Mar 1, 1970.
+		// Since Feb 29 is the phantom day of the year, we'll make it the last day of the year by moving the epoch to Mar 1, 1600.
+		// That also makes the phantom day of every 400-year period its last day.
+		year = 1600;
+		month = 3;
+		remaining_days += days_from_mar_1_1600_to_epoch;
 
 		// There is a well-known number of days per 400 years.
-		if (remaining_days >= days_per_400_years) {
-			year += 400 * (remaining_days / days_per_400_years);
-			remaining_days = remaining_days % days_per_400_years;
-		}
-
-		// The first century bounary is leap.
-		if (remaining_days >= days_per_100_years_leap) {
-			year += 100;
-			remaining_days -= days_per_100_years_leap;
-		}
-
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
-		}
+		year += 400 * (remaining_days / days_per_400_years);
+		remaining_days = remaining_days % days_per_400_years;
 
-		// Now we have homogenious 4-year chunks.
-		if (remaining_days >= days_per_4_years) {
-			year += 4 * (remaining_days / days_per_4_years);
-			remaining_days = remaining_days % days_per_4_years;
+		// Only the last of the 4 centuries ends in a leap year.
+		date_count_t centuries = remaining_days / days_per_100_years;
+		if (centuries > 3) {
+			centuries = 3;
 		}
+		year += 100 * centuries;
+		remaining_days -= centuries * days_per_100_years;
 
-		// Out of any remaining years, the first one is not leap.
-		if (remaining_days >= days_per_1_year) {
-			year++;
-			remaining_days -= days_per_1_year;
-		}
-
-		// The second year is leap.
-		if (remaining_days >= days_per_1_year_leap) {
-			year++;
-			remaining_days -= days_per_1_year_leap;
-		}
+		// Now we have homogenious 4-year chunks (up to the end of the century).
+		year += 4 * (remaining_days / days_per_4_years);
+		remaining_days = remaining_days % days_per_4_years;
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+		// Only the last of the 4 years is leap.
+		date_count_t years = remaining_days / days_per_1_year;
+		if (years > 3) {
+			years = 3;
 		}
+		year += years;
+		remaining_days -= years * days_per_1_year;
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
 
-- 
2.43.0


From f133df7e8ee4714c9e4ce58951a5b6937231475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 037/104] fix: moving a buffer_streambuf keeps its positions

---
 src/buffer_streambuf.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..d94082e 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -110,7 +110,11 @@ namespace abc {
 
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
-		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		: base(other)
+		, _get_begin_ptr(other._get_begin_ptr)
+		, _get_end_ptr(other._get_end_ptr)
+		, _put_begin_ptr(other._put_begin_ptr)
+		, _put_end_ptr(other._put_end_ptr) {
 	}
 
 
-- 
2.43.0


From bb76432ae9c720d502a664c4944ffdc4a6ca04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 038/104] fix: a line stops at its capacity

---
 src/table.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..390534d 100644
--- a/src/table.h
+++ b/src/table.h
@@ -140,8 +140,11 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
-		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+		int pc = std::vsnprintf(_buffer + _pcount, Size + 1 - _pcount, format, vlist);
+		if (pc > 0) {
+			std::size_t available = Size - _pcount;
+			_pcount += static_cast<std::size_t>(pc) < available ? static_cast<std::size_t>(pc) : available;
+		}
 	}
 
 
-- 
2.43.0


From 487b18d712b1c80fa104f96acb0f2ec75d25e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 039/104] fix: a moved line is not flushed twice

---
 src/table.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/table.h b/src/table.h
index 390534d..e5e6ac9 100644
--- a/src/table.h
+++ b/src/table.h
@@ -93,6 +93,10 @@ namespace abc {
 		, _sb(std::move(other._sb))
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+
+		// The line is flushed only once.
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From fec778d31bcb3daae77d8505ba0bb6bd411561ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 040/104] fix: a dump of a multiple of 16 bytes has no extra
 line

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index e5e6ac9..7f081ca 100644
--- a/src/table.h
+++ b/src/table.h
@@ -253,7 +253,7 @@ namespace abc {
 
 		_pcount += local_size;
 		buffer_offset += chunk_size;
-		return hasMore;
+		return hasMore && buffer_offset < buffer_size;
 	}
 
 }
-- 
2.43.0


From 2786c80107bf1c3f8ac736cc24f5d1302177772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 041/104] fix: a test log line of severity 0 wrote before its
 buffer

---
 src/log.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log.h b/src/log.h
index 56c2efa..04e214e 100644
--- a/src/log.h
+++ b/src/log.h
@@ -226,6 +226,7 @@ namespace abc {
 
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
+		severity = severity >= severity::critical ? severity : severity::critical;
 		std::memset(buf_severity, ' ', 2 * severity);
 		buf_severity[2 * (severity - 1)] = '\0';
 		base::put_any(buf_severity);
-- 
2.43.0


From 2716001d17c6222fb48b8c283427570cc7aef46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 042/104] fix: an empty multifile path was read before its
 beginning

---
 src/multifile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multifile.h b/src/multifile.h
index be5892a..cc871d4 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -59,7 +59,7 @@ namespace abc {
 		}
 
 		std::strncpy(_path, path, _path_length);
-		if (_path[_path_length - 1] != path_separator) {
+		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
 
-- 
2.43.0


From b2c9c83a1aa65e4f7d25609833bb0891d1005a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 043/104] fix: a multifile name of the maximum length lost its
 last character

---
 src/multifile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index cc871d4..62f6413 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -70,7 +70,7 @@ namespace abc {
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline multifile_streambuf<MaxPath, Clock, Log>::multifile_streambuf(multifile_streambuf&& other) noexcept
 		: base(std::move(other)) {
-		std::strncpy(_path, other._path, MaxPath);
+		std::memcpy(_path, other._path, sizeof(_path));
 		_path_length = other._path_length;
 		_mode = other._mode;
 		_log = other._log;
@@ -92,7 +92,7 @@ namespace abc {
 		}
 
 		timestamp<Clock> ts;
-		std::snprintf(_path + _path_length, MaxPath - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
+		std::snprintf(_path + _path_length, sizeof(_path) - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
 		std::filebuf* op = base::open(_path, _mode);
 
-- 
2.43.0


From 86c64186f548199dc9fe81d46be3ee1e83588d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 044/104] fix: reopening a multifile within the same second
 erased its content

---
 src/multifile.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/multifile.h b/src/multifile.h
index 62f6413..41fde98 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -62,6 +62,7 @@ namespace abc {
 		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
+		std::memset(_path + _path_length, 0, sizeof(_path) - _path_length);
 
 		reopen();
 	}
@@ -91,10 +92,19 @@ namespace abc {
 			}
 		}
 
+		char previous_filename[filename_length + 1];
+		std::memcpy(previous_filename, _path + _path_length, sizeof(previous_filename));
+
 		timestamp<Clock> ts;
 		std::snprintf(_path + _path_length, sizeof(_path) - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
-		std::filebuf* op = base::open(_path, _mode);
+		// When the name hasn't changed yet, the file this instance has just closed must not be truncated.
+		std::ios_base::openmode mode = _mode;
+		if (std::strncmp(_path + _path_length, previous_filename, sizeof(previous_filename)) == 0) {
+			mode = (mode & ~std::ios_base::trunc) | std::ios_base::app;
+		}
+
+		std::filebuf* op = base::open(_path, mode);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::multifile, severity::abc::optional, 0x102b3, "multifile_streambuf::reopen() Open path=%s, success=%u", _path, op != nullptr);
-- 
2.43.0


From c8f7e9697b161131adedc2d681fa42596ff226b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 045/104] fix: a failure to flush a multifile was not reported

---
 src/multifile.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index 41fde98..a731875 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -139,14 +139,14 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int duration_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		int result = base::sync();
 
 		timestamp<Clock> ts;
-		if (ts - _ts >= _duration) {
+		if (result == 0 && ts - _ts >= _duration) {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
@@ -181,13 +181,13 @@ namespace abc {
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
 		_current_size += pcount();
 
-		base::sync();
+		int result = base::sync();
 
-		if (_current_size >= _size) {
+		if (result == 0 && _current_size >= _size) {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
-- 
2.43.0


From eeb2c430d173a4a856b11c554c3d306eeca456a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 046/104] fix: the size of a multifile was counted twice or not
 at all

---
 src/i/multifile.i.h | 16 ++--------------
 src/multifile.h     | 23 ++++++-----------------
 2 files changed, 8 insertions(+), 31 deletions(-)

diff --git a/src/i/multifile.i.h b/src/i/multifile.i.h
index 12267f7..75633a3 100644
--- a/src/i/multifile.i.h
+++ b/src/i/multifile.i.h
@@ -199,13 +199,6 @@ namespace abc {
 		void reopen();
 
 	protected:
-		/**
-		 * @brief				Handler that counts the chars put out at once.
-		 * @param s				Char sequence to put out. 
-		 * @param count			Count of chars.
-		 */
-		virtual std::streamsize xsputn(const char* s, std::streamsize count) override;
-
 		/**
 		 * @brief				Handler that checks the size, and calls `reopen()` if needed.
 		 */
@@ -213,20 +206,15 @@ namespace abc {
 
 	protected:
 		/**
-		 * @brief				Overrides the default pcount calculation.
+		 * @brief				Returns the size of the current file.
 		 */
-		std::size_t pcount() const noexcept;
+		std::size_t current_size();
 
 	private:
 		/**
 		 * @brief				The size passed in to the constructor.
 		 */
 		const std::size_t _size;
-
-		/**
-		 * @brief				Current file size.
-		 */
-		std::size_t _current_size;
 	};
 
 }
diff --git a/src/multifile.h b/src/multifile.h
index a731875..3ad96d9 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -156,34 +156,21 @@ namespace abc {
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline size_multifile_streambuf<MaxPath, Clock, Log>::size_multifile_streambuf(std::size_t size, const char* path, std::ios_base::openmode mode, Log* log)
 		: base(path, mode, log)
-		, _size(size)
-		, _current_size(0) {
+		, _size(size) {
 	}
 
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline void size_multifile_streambuf<MaxPath, Clock, Log>::reopen() {
 		base::reopen();
-
-		_current_size = 0;
-	}
-
-
-	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline std::streamsize size_multifile_streambuf<MaxPath, Clock, Log>::xsputn(const char* s, std::streamsize count) {
-		_current_size += count;
-
-		return base::xsputn(s, count);
 	}
 
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		_current_size += pcount();
-
 		int result = base::sync();
 
-		if (result == 0 && _current_size >= _size) {
+		if (result == 0 && current_size() >= _size) {
 			reopen();
 		}
 
@@ -192,8 +179,10 @@ namespace abc {
 
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline std::size_t size_multifile_streambuf<MaxPath, Clock, Log>::pcount() const noexcept {
-		return base::pptr() - base::pbase();
+	inline std::size_t size_multifile_streambuf<MaxPath, Clock, Log>::current_size() {
+		std::streamoff end = base::seekoff(0, std::ios_base::end, std::ios_base::out);
+
+		return end > 0 ? static_cast<std::size_t>(end) : 0;
 	}
 
 
-- 
2.43.0


From 3b8cceb6c4d1485d3d310839019c7ae1801cd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 047/104] fix: a socket stream repeated its last byte at the
 end and ended at a byte 255

---
 src/socket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 513e35e..fe8a80d 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -552,11 +552,15 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (_socket->receive(&_get_ch, sizeof(char)) < sizeof(char)) {
+			setg(&_get_ch, &_get_ch, &_get_ch);
+
+			return base::traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return base::traits_type::to_int_type(_get_ch);
 	}
 
 
-- 
2.43.0


From 460e40fbc38c0d0f0247259cb74bb24777a1d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 048/104] fix: a socket stream lost bytes silently when sending
 failed

---
 src/socket.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index fe8a80d..895fe7a 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -566,19 +566,27 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return base::traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (!base::traits_type::eq_int_type(ch, base::traits_type::eof())) {
+			char put_ch = base::traits_type::to_char_type(ch);
+			if (_socket->send(&put_ch, sizeof(char)) < sizeof(char)) {
+				return base::traits_type::eof();
+			}
+		}
 
-		return ch;
+		return base::traits_type::not_eof(ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
-		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
+		if (pptr() != pbase()) {
+			if (_socket->send(&_put_ch, sizeof(char)) < sizeof(char)) {
+				return -1;
+			}
 		}
 
 		setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 2ca7a42e35693507b2b5e397e7b4c8878573c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 049/104] fix: moving a socket stream lost its pending bytes

---
 src/socket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index 895fe7a..201d14b 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -541,8 +541,9 @@ namespace abc {
 		, _log(other._log)
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		setg(&_get_ch, &_get_ch, &_get_ch);
+		setg(&_get_ch, &_get_ch, &_get_ch + (other.egptr() - other.gptr()));
 		setp(&_put_ch, &_put_ch + 1);
+		pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
-- 
2.43.0


From 9e9f9f69e864800f767df1c406b4ea36b382ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 050/104] fix: sending to a closed connection ended the process

---
 src/i/socket.i.h | 10 ++++++++++
 src/socket.h     |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 68395d5..d517b8f 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -86,6 +86,16 @@ namespace abc {
 		}
 
 
+		/**
+		 * @brief				Flags passed to `::send()`. Sending to a closed connection must fail rather than raise `SIGPIPE`.
+		 */
+#ifdef MSG_NOSIGNAL
+		constexpr int			send_flags	= MSG_NOSIGNAL;
+#else
+		constexpr int			send_flags	= 0;
+#endif
+
+
 		/**
 		 * @brief				Convenience wrapper around `sockaddr`.
 		 */
diff --git a/src/socket.h b/src/socket.h
index 201d14b..ed9bb8e 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -363,10 +363,10 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, 0, &address->value, address->size);
+			sent_size = ::sendto(base::fd(), buffer, size, socket::send_flags, &address->value, address->size);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, 0);
+			sent_size = ::send(base::fd(), buffer, size, socket::send_flags);
 		}
 
 		if (sent_size < 0) {
-- 
2.43.0


From ac5c4fc3393da8d0ccd81ec7070380fb8cb8031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 051/104] fix: a TLS socket whose construction failed leaked
 its context or session

---
 src/openssl_socket.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index e7fa33d..eee55f5 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -57,6 +57,9 @@ namespace abc {
 
 		_ssl = SSL_new(_ctx);
 		if (_ssl == nullptr) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x10766, log_local);
 		}
 
@@ -103,6 +106,9 @@ namespace abc {
 
 		int stat = SSL_set_fd(_ssl, fd);
 		if (stat <= 0) {
+			SSL_free(_ssl);
+			_ssl = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_set_fd()", 0x1076c, log_local);
 		}
 
@@ -326,11 +332,17 @@ namespace abc {
 
 		int stat = SSL_CTX_use_certificate_file(_ctx, cert_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_certificate_file()", 0x1078f, log_local);
 		}
 
 	    stat = SSL_CTX_use_PrivateKey_file(_ctx, pkey_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_PrivateKey_file()", 0x10790, log_local);
 		}
 
-- 
2.43.0


From 398e5075bb83a532d711ecd09953e36e1f6a2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 052/104] fix: a TLS socket closed before its destruction wrote
 to a closed descriptor

---
 src/i/openssl_socket.i.h |  5 +++++
 src/openssl_socket.h     | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 9f75a3f..37981b7 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -72,6 +72,11 @@ namespace abc {
 		virtual ~openssl_tcp_client_socket() noexcept;
 
 	public:
+		/**
+		 * @brief				Ends the TLS session, and closes the socket.
+		 */
+		void close() noexcept;
+
 		/**
 		 * @brief				Connects the socket to the given port on the given host name.
 		 * @param host			Host name.
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index eee55f5..8bc7fb1 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -125,8 +125,9 @@ namespace abc {
 			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1076e, "openssl_tcp_client_socket::~openssl_tcp_client_socket() _ssl=%p >>>", _ssl);
 		}
 
+		close();
+
 		if (_ssl != nullptr) {
-			SSL_shutdown(_ssl);
 			SSL_free(_ssl);
 			_ssl = nullptr;
 		}
@@ -142,6 +143,17 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void openssl_tcp_client_socket<Log>::close() noexcept {
+		if (base::is_open() && _ssl != nullptr) {
+			SSL_shutdown(_ssl);
+			SSL_clear(_ssl);
+		}
+
+		base::close();
+	}
+
+
 	template <typename Log>
 	inline void openssl_tcp_client_socket<Log>::connect(const char* host, const char* port) {
 		Log* log_local = base::log();
-- 
2.43.0


From 9ce481cb2c1acd4eac049e34635dbc06b96db932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 053/104] fix: the address of an IPv6 datagram was cut off

---
 src/i/socket.i.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index d517b8f..e55e338 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -100,8 +100,11 @@ namespace abc {
 		 * @brief				Convenience wrapper around `sockaddr`.
 		 */
 		struct address {
-			sockaddr			value;
-			socklen_t			size = sizeof(sockaddr);
+			union {
+				sockaddr			value;
+				sockaddr_storage	storage;
+			};
+			socklen_t				size = sizeof(sockaddr_storage);
 		};
 
 		using backlog_size_t = int;
-- 
2.43.0


From 719145291a595ad816b9a1adc9b0a6c301c0302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 054/104] fix: logging a socket address read beyond its end

---
 src/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index ed9bb8e..d9f8205 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -266,7 +266,7 @@ namespace abc {
 		}
 
 		if (_log != nullptr) {
-			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, addr.sa_data, addr_len);
+			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, &addr, addr_len);
 			_log->put_any(category::abc::socket, severity::abc::optional, 0x1079c, "basic_socket::tie(innermost) %s(), err=%d", tt == socket::tie::bind ? "bind" : "connect", err);
 		}
 
-- 
2.43.0


From 599fa403f3e762ede8a4c957106f49c2c44abad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 055/104] fix: a TLS socket kept using the descriptor of a
 connection it had closed

---
 src/openssl_socket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 8bc7fb1..b54dee7 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -148,6 +148,7 @@ namespace abc {
 		if (base::is_open() && _ssl != nullptr) {
 			SSL_shutdown(_ssl);
 			SSL_clear(_ssl);
+			SSL_set_bio(_ssl, nullptr, nullptr);
 		}
 
 		base::close();
-- 
2.43.0


From 2c395a39592aa7d0da5a2bdcd6a804fb0cc1626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 056/104] fix: an endpoint shutdown could complete twice, too
 early, or never

---
 src/endpoint.h     | 63 ++++++++++++++++++++++++++++++++++++++--------
 src/i/endpoint.i.h | 49 ++++++++++++++++++++++++++++++++++++
 2 files changed, 102 insertions(+), 10 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..cb5700d 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -51,7 +51,8 @@ namespace abc {
 		: _config(config)
 		, _log(log)
 		, _requests_in_progress(0)
-		, _is_shutdown_requested(false) {
+		, _is_shutdown_requested(false)
+		, _is_stopped(false) {
 	}
 
 
@@ -107,8 +108,12 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102de, "Begin handling request (%s)", _config->port);
 		}
 
+		// Whichever way this method is left, the request stops being in progress after its connection is closed.
+		request_guard guard(this);
+		ClientSocket client(std::move(connection));
+
 		// Create a socket_streambuf over the ClientSocket.
-		abc::socket_streambuf<ClientSocket, Log> sb(&connection);
+		abc::socket_streambuf<ClientSocket, Log> sb(&client);
 
 		// Create an hhtp_server_stream, which combines http_request_istream and http_response_ostream.
 		abc::http_server_stream<Log> http(&sb);
@@ -135,12 +140,12 @@ namespace abc {
 		}
 
 		// It's OK to read a request as long as we don't return a broken response.
+		// The request must be counted before the flag is checked. Otherwise, the shutdown could complete in between.
+		guard.begin();
 		if (_is_shutdown_requested) {
 			return;
 		}
 
-		++_requests_in_progress;
-
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
@@ -159,17 +164,52 @@ namespace abc {
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
 
-		if (--_requests_in_progress == 0 && _is_shutdown_requested) {
-			if (_log != nullptr) {
-				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
-				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
-			}
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::complete_shutdown() {
+		// No request is processed any more once the shutdown is requested and none is in progress. (The order of the checks matters.)
+		if (!_is_shutdown_requested || _requests_in_progress != 0) {
+			return;
+		}
+
+		// Many threads may get here, but only one of them may set the promise.
+		if (_is_stopped.exchange(true)) {
+			return;
+		}
+
+		if (_log != nullptr) {
+			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
+			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
+		}
+
+		_promise.set_value();
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline endpoint<ServerSocket, ClientSocket, Limits, Log>::request_guard::request_guard(endpoint<ServerSocket, ClientSocket, Limits, Log>* endpoint)
+		: _endpoint(endpoint)
+		, _is_in_progress(false) {
+	}
+
 
-			_promise.set_value();
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline endpoint<ServerSocket, ClientSocket, Limits, Log>::request_guard::~request_guard() {
+		if (_is_in_progress && --_endpoint->_requests_in_progress == 0) {
+			_endpoint->complete_shutdown();
 		}
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::request_guard::begin() {
+		_is_in_progress = true;
+		++_endpoint->_requests_in_progress;
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
 		if (_log != nullptr) {
@@ -337,6 +377,9 @@ namespace abc {
 		}
 
 		_is_shutdown_requested = true;
+
+		// When there are requests in progress, the last one of them completes the shutdown.
+		complete_shutdown();
 	}
 
 
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 7cfb4b6..1b0cc2c 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -346,6 +346,50 @@ namespace abc {
 		 */
 		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection);
 
+		/**
+		 * @brief				Signals the `std::future` that was returned by `start_async()`. Only the first call has an effect.
+		 */
+		void complete_shutdown();
+
+	private:
+		/**
+		 * @brief				Counts a request as being in progress, and completes a requested shutdown when the last request ends.
+		 */
+		class request_guard {
+		public:
+			/**
+			 * @brief			Constructor.
+			 * @param endpoint	Endpoint that processes the request.
+			 */
+			request_guard(endpoint<ServerSocket, ClientSocket, Limits, Log>* endpoint);
+
+			/**
+			 * @brief			Deleted.
+			 */
+			request_guard(const request_guard& other) = delete;
+
+			/**
+			 * @brief			Destructor. Ends the request if it was begun.
+			 */
+			~request_guard();
+
+			/**
+			 * @brief			Begins the request.
+			 */
+			void begin();
+
+		private:
+			/**
+			 * @brief			Endpoint that processes the request.
+			 */
+			endpoint<ServerSocket, ClientSocket, Limits, Log>* _endpoint;
+
+			/**
+			 * @brief			Whether the request was begun.
+			 */
+			bool _is_in_progress;
+		};
+
 	protected:
 		/**
 		 * @brief				The config settings pass in to the constructor.
@@ -372,6 +416,11 @@ namespace abc {
 		 * @brief				Flag that gets set when `POST /shutdown` is received.
 		 */
 		std::atomic_bool _is_shutdown_requested;
+
+		/**
+		 * @brief				Flag that gets set when the shutdown is complete.
+		 */
+		std::atomic_bool _is_stopped;
 	};
 
 
-- 
2.43.0


From 39a66555c7a24eacc6adfefdd7b99bc8ae1a53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 057/104] fix: a request or connection that failed ended the
 process

---
 src/endpoint.h | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index cb5700d..baf6bda 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -30,6 +30,7 @@ SOFTWARE.
 #include <system_error>
 #include <future>
 #include <thread>
+#include <chrono>
 #include <atomic>
 #include <exception>
 #include <cstring>
@@ -90,15 +91,39 @@ namespace abc {
 
 		while (_requests_in_progress != 0 || !_is_shutdown_requested) {
 			// Accept the next request and process it asynchronously.
-			ClientSocket connection = listener.accept();
-			std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			// A connection that cannot be accepted or processed must not stop the endpoint.
+			try {
+				ClientSocket connection = listener.accept();
+				std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			}
+			catch (const std::exception& ex) {
+				if (_log != nullptr) {
+					_log->put_any(abc::category::abc::endpoint, abc::severity::important, 0x107b7, "Failed to accept a request (%s) '%s'", _config->port, ex.what());
+				}
+
+				// Let requests in progress release resources.
+				std::this_thread::sleep_for(std::chrono::milliseconds(10));
+			}
 		}
 	}
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection) {
-		this_ptr->process_request(std::move(connection));
+		// An exception must not leave a thread function.
+		try {
+			this_ptr->process_request(std::move(connection));
+		}
+		catch (const std::exception& ex) {
+			if (this_ptr->_log != nullptr) {
+				this_ptr->_log->put_any(abc::category::abc::endpoint, abc::severity::important, 0x107b8, "Failed to process a request (%s) '%s'", this_ptr->_config->port, ex.what());
+			}
+		}
+		catch (...) {
+			if (this_ptr->_log != nullptr) {
+				this_ptr->_log->put_any(abc::category::abc::endpoint, abc::severity::important, 0x107b9, "Failed to process a request (%s)", this_ptr->_config->port);
+			}
+		}
 	}
 
 
-- 
2.43.0


From b267fed8c55c8bdf1b1d32817fdb6258f9e88eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 058/104] fix: an endpoint that failed to start ended the
 process

---
 src/endpoint.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index baf6bda..6c16397 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -69,7 +69,15 @@ namespace abc {
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::start_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr) {
-		this_ptr->start();
+		// An exception must not leave a thread function. It is delivered through the future instead.
+		try {
+			this_ptr->start();
+		}
+		catch (...) {
+			if (!this_ptr->_is_stopped.exchange(true)) {
+				this_ptr->_promise.set_exception(std::current_exception());
+			}
+		}
 	}
 
 
-- 
2.43.0


From f8f66287b55fade7030bba159183284c530193ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 059/104] fix: file requests could reach outside the root
 directory

---
 src/endpoint.h     | 25 +++++++++++++++++++++++--
 src/i/endpoint.i.h |  6 ++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 6c16397..600393c 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -244,7 +244,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -260,8 +260,9 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
 		}
 
+		// Only paths that stay under the root dir are considered.
 		struct stat st;
-		int err = ::stat(path, &st);
+		int err = is_resource_under_root(resource) ? ::stat(path, &st) : -1;
 
 		// If the file was not opened, return 404.
 		if (err != 0) {
@@ -403,6 +404,26 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::is_resource_under_root(const char* resource) {
+		// root_dir has no trailing slash.
+		if (*resource != '/') {
+			return false;
+		}
+
+		while (resource != nullptr) {
+			resource++;
+			if (resource[0] == '.' && resource[1] == '.' && (resource[2] == '/' || resource[2] == '\0')) {
+				return false;
+			}
+
+			resource = std::strchr(resource, '/');
+		}
+
+		return true;
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::set_shutdown_requested() {
 		if (_log != nullptr) {
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 1b0cc2c..a77be3d 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -346,6 +346,12 @@ namespace abc {
 		 */
 		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection);
 
+		/**
+		 * @brief				Checks that a virtual path doesn't lead outside the root dir.
+		 * @param resource		Virtual resource path.
+		 */
+		static bool is_resource_under_root(const char* resource);
+
 		/**
 		 * @brief				Signals the `std::future` that was returned by `start_async()`. Only the first call has an effect.
 		 */
-- 
2.43.0


From 13e8277a29d67344f1aafcd4eda3e9b54e9d914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 060/104] fix: a directory was served as a file, and a growing
 file beyond its announced length

---
 src/endpoint.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 600393c..2eb5be9 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -32,6 +32,7 @@ SOFTWARE.
 #include <thread>
 #include <chrono>
 #include <atomic>
+#include <algorithm>
 #include <exception>
 #include <cstring>
 #include <sys/types.h>
@@ -264,8 +265,14 @@ namespace abc {
 		struct stat st;
 		int err = is_resource_under_root(resource) ? ::stat(path, &st) : -1;
 
+		// Only regular files are served. Even opening something else may block.
+		std::ifstream file;
+		if (err == 0 && S_ISREG(st.st_mode)) {
+			file.open(path);
+		}
+
 		// If the file was not opened, return 404.
-		if (err != 0) {
+		if (!file.is_open()) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -297,10 +304,10 @@ namespace abc {
 		http.put_header_value(fsize_buffer);
 		http.end_headers();
 
-		std::ifstream file(path);
+		// Don't send more than what was announced even if the file has grown.
 		char file_chunk[Limits::file_chunk_size];
 		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
-			file.read(file_chunk, sizeof(file_chunk));
+			file.read(file_chunk, std::min(sizeof(file_chunk), fsize - sent_size));
 			http.put_body(file_chunk, file.gcount());
 		}
 	}
-- 
2.43.0


From 8ca0a3437371fdbb3205e392e3835888a4afa719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 061/104] fix: an endpoint without a root directory, or with a
 long one, accessed invalid memory

---
 src/endpoint.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 2eb5be9..1afc2b3 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -34,6 +34,7 @@ SOFTWARE.
 #include <atomic>
 #include <algorithm>
 #include <exception>
+#include <climits>
 #include <cstring>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -159,10 +160,12 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102df, "Received Method   = '%s'", method);
 		}
 
-		char path[Limits::resource_size + 1];
-		std::strcpy(path, _config->root_dir);
-		char* resource = path + _config->root_dir_len;
-		http.get_resource(resource, sizeof(path) - _config->root_dir_len);
+		// The path buffer must fit any root_dir. (No file can be opened when root_dir itself is longer than PATH_MAX.)
+		char path[PATH_MAX + Limits::resource_size + 1];
+		const std::size_t root_dir_len = std::min<std::size_t>(_config->root_dir_len, PATH_MAX);
+		std::memcpy(path, _config->root_dir != nullptr ? _config->root_dir : "", root_dir_len);
+		char* resource = path + root_dir_len;
+		http.get_resource(resource, Limits::resource_size + 1);
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e0, "Received Resource = '%s'", resource);
 		}
@@ -263,7 +266,7 @@ namespace abc {
 
 		// Only paths that stay under the root dir are considered.
 		struct stat st;
-		int err = is_resource_under_root(resource) ? ::stat(path, &st) : -1;
+		int err = _config->root_dir != nullptr && is_resource_under_root(resource) ? ::stat(path, &st) : -1;
 
 		// Only regular files are served. Even opening something else may block.
 		std::ifstream file;
-- 
2.43.0


From 0ee179a54dbc40e4e706c896a14709215ccd767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 062/104] fix: a request line that was cut off was processed as
 another request

---
 src/endpoint.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 1afc2b3..230b811 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -154,6 +154,7 @@ namespace abc {
 		abc::http_server_stream<Log> http(&sb);
 
 		// Read the request line.
+		abc::http_request_istream<Log>& request = http;
 		char method[Limits::method_size + 1];
 		http.get_method(method, sizeof(method));
 		if (_log != nullptr) {
@@ -165,13 +166,18 @@ namespace abc {
 		const std::size_t root_dir_len = std::min<std::size_t>(_config->root_dir_len, PATH_MAX);
 		std::memcpy(path, _config->root_dir != nullptr ? _config->root_dir : "", root_dir_len);
 		char* resource = path + root_dir_len;
-		http.get_resource(resource, Limits::resource_size + 1);
+		if (request.good()) {
+			http.get_resource(resource, Limits::resource_size + 1);
+		}
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e0, "Received Resource = '%s'", resource);
 		}
 
 		char protocol[Limits::protocol_size + 1];
-		http.get_protocol(protocol, sizeof(protocol));
+		protocol[0] = '\0';
+		if (request.good()) {
+			http.get_protocol(protocol, sizeof(protocol));
+		}
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e1, "Received Protocol = '%s'", protocol);
 		}
@@ -183,10 +189,16 @@ namespace abc {
 			return;
 		}
 
+		// A request line that is broken, too long, or cut off must not be taken for another request.
+		if (!request.good()) {
+			request.reset();
+			send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request could not be read.", 0x107ba);
+		}
+
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
-		if (is_file_request(method, resource)) {
+		else if (is_file_request(method, resource)) {
 			process_file_request(http, method, resource, path);
 		}
 		else {
-- 
2.43.0


From 7cf323db6289ef0b045db745164e18bbdaa262f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 063/104] fix: lines logged by several threads could mix

---
 src/i/table.i.h | 8 ++++++++
 src/table.h     | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/i/table.i.h b/src/i/table.i.h
index 0232bc2..12e41c9 100644
--- a/src/i/table.i.h
+++ b/src/i/table.i.h
@@ -28,6 +28,7 @@ SOFTWARE.
 #include <streambuf>
 #include <ostream>
 #include <thread>
+#include <mutex>
 
 #include "../size.h"
 #include "../buffer_streambuf.h"
@@ -39,6 +40,7 @@ namespace abc {
 
 	/**
 	 * @brief				Output stream that puts lines.
+	 * @details				Lines may be put from multiple threads.
 	 */
 	class table_ostream : public ostream {
 		using base = ostream;
@@ -79,6 +81,12 @@ namespace abc {
 		 * @brief			Puts a new line.
 		 */
 		void put_blank_line() noexcept;
+
+	private:
+		/**
+		 * @brief			Keeps lines put from different threads apart.
+		 */
+		std::mutex _mutex;
 	};
 
 
diff --git a/src/table.h b/src/table.h
index 7f081ca..e56be83 100644
--- a/src/table.h
+++ b/src/table.h
@@ -50,6 +50,8 @@ namespace abc {
 		}
 
 		try {
+			std::lock_guard<std::mutex> lock(_mutex);
+
 			base::write(line, line_size);
 			base::flush();
 		}
@@ -60,6 +62,8 @@ namespace abc {
 
 	inline void table_ostream::put_blank_line() noexcept {
 		try {
+			std::lock_guard<std::mutex> lock(_mutex);
+
 			*this << endl;
 			base::flush();
 		}
-- 
2.43.0


From 93fa8168e9981852f25e8bc9d13fb9f16d2236f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 064/104] fix: the success of an SMBus transfer depended on
 whether there was a log

---
 src/x/gpio_smbus.x.h | 88 ++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index f2412b3..4242ebb 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,9 +130,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_ioctl_data msg{ };
@@ -143,9 +143,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -161,9 +161,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -178,9 +178,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -196,9 +196,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -213,9 +213,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -231,17 +231,17 @@ namespace abc {
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -257,9 +257,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -275,9 +275,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -290,9 +290,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -311,18 +311,18 @@ namespace abc {
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		std::uint8_t byte1;
 		if (!get_noreg(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
@@ -340,9 +340,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -356,9 +356,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -376,9 +376,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -392,9 +392,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? swap_bytes(data.word) : data.word;
@@ -412,9 +412,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -429,17 +429,17 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (data.block[0] > size) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		size = data.block[0];
@@ -458,18 +458,18 @@ namespace abc {
 		if (_addr == addr) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::debug, 0x106ff, "gpio_smbus::ensure_address() Skip.");
-
-				return true;
 			}
+
+			return true;
 		}
 
 		long laddr = addr;
 		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		_addr = addr;
-- 
2.43.0


From e05dbc6c95ad298a48f9b1b7e78d6c11f5a37ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 065/104] fix: an SMBus transfer could reach a target that
 another thread addressed

---
 src/i/gpio_smbus.i.h | 17 +++++++++++++++--
 src/x/gpio_smbus.x.h | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index 4cb6f20..6f8fb08 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -186,6 +186,14 @@ namespace abc {
 		bool get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept;
 
 	private:
+		/**
+		 * @brief						Receive a byte (8 bits) from a target with no register while `_transfer_mutex` is being held.
+		 * @param target				Target/HAT.
+		 * @param byte					Data.
+		 * @return						`true` = success. `false` = error.
+		 */
+		bool get_noreg_locked(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept;
+
 		/**
 		 * @brief						Ensure the SMBus is currently targeting the target's address.
 		 * @param addr					Target's address. 
@@ -227,9 +235,14 @@ namespace abc {
 		gpio_smbus_functionality_t _functionality;
 
 		/**
-		 * @brief						Current target address.
+		 * @brief						Current target address. Negative when unknown.
 		 */
-		gpio_smbus_address_t _addr;
+		int _addr;
+
+		/**
+		 * @brief						Keeps addressing a target and the transfer together. 
+		 */
+		std::mutex _transfer_mutex;
 
 		/**
 		 * @brief						ioctl() mutex. 
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 4242ebb..b2a9939 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -43,7 +43,7 @@ namespace abc {
 	inline gpio_smbus<Log>::gpio_smbus(int dev_i2c_pos, Log* log)
 		: _fd(-1)
 		, _functionality(0)
-		, _addr(0)
+		, _addr(-1)
 		, _log(log) {
 		char path[gpio_max_path];
 		std::snprintf(path, gpio_max_path, "/dev/i2c-%d", dev_i2c_pos);
@@ -56,7 +56,7 @@ namespace abc {
 	inline gpio_smbus<Log>::gpio_smbus(const char* path, Log* log)
 		: _fd(-1)
 		, _functionality(0)
-		, _addr(0)
+		, _addr(-1)
 		, _log(log) {
 		init(path);
 	}
@@ -127,6 +127,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_nodata(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
@@ -158,6 +160,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t byte) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
@@ -193,6 +197,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
@@ -228,6 +234,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, const void* block, std::size_t size) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
@@ -272,6 +280,14 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
+		return get_noreg_locked(target, byte);
+	}
+
+
+	template <typename Log>
+	inline bool gpio_smbus<Log>::get_noreg_locked(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
@@ -307,8 +323,10 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg_2(const gpio_smbus_target<Log>& target, std::uint16_t& word) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		std::uint8_t byte0;
-		if (!get_noreg(target, byte0)) {
+		if (!get_noreg_locked(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
 			}
@@ -317,7 +335,7 @@ namespace abc {
 		}
 
 		std::uint8_t byte1;
-		if (!get_noreg(target, byte1)) {
+		if (!get_noreg_locked(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
 			}
@@ -337,6 +355,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t& byte) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
@@ -373,6 +393,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
@@ -409,6 +431,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept {
+		std::lock_guard<std::mutex> lock(_transfer_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
@@ -434,7 +458,7 @@ namespace abc {
 			return false;
 		}
 
-		if (data.block[0] > size) {
+		if (data.block[0] > size || data.block[0] > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
 			}
@@ -469,6 +493,9 @@ namespace abc {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
 			}
 
+			// It is not known which target the bus is addressing now.
+			_addr = -1;
+
 			return false;
 		}
 
@@ -490,7 +517,8 @@ namespace abc {
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-			return ENOLCK;
+			errno = ENOLCK;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From dafcc8dad0ed7aef11b05772a2428bb8e2f4d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 066/104] fix: GPIO line and SMBus descriptors were leaked or
 closed twice

---
 src/i/gpio_line.i.h  |  2 +-
 src/x/gpio_line.x.h  | 12 ++++++++++++
 src/x/gpio_smbus.x.h |  2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_line.i.h b/src/i/gpio_line.i.h
index 1452d49..f5703ff 100644
--- a/src/i/gpio_line.i.h
+++ b/src/i/gpio_line.i.h
@@ -53,7 +53,7 @@ namespace abc {
 		/**
 		 * @brief			Move constructor.
 		 */
-		gpio_line(gpio_line<Log>&& other) noexcept = default;
+		gpio_line(gpio_line<Log>&& other) noexcept;
 
 		/**
 		 * @brief			Deleted.
diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 845c69e..fe0e1e3 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -73,10 +73,13 @@ namespace abc {
 
 		int ret = ioctl(fd, gpio_ioctl::get_line, &line_request);
 		if (ret < 0) {
+			close(fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() ioctl() < 0", 0x106cb);
 		}
 
 		if (close(fd) < 0) {
+			// The destructor won't be called.
+			close(line_request.fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() close(fd) < 0", 0x106cc);
 		}
 
@@ -88,6 +91,15 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline gpio_line<Log>::gpio_line(gpio_line<Log>&& other) noexcept
+		: _fd(other._fd)
+		, _log(other._log) {
+		// Only one instance may close the descriptor.
+		other._fd = -1;
+	}
+
+
 	template <typename Log>
 	inline gpio_line<Log>::~gpio_line() noexcept {
 		if (_fd >= 0) {
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index b2a9939..7ba48cd 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -98,6 +98,8 @@ namespace abc {
 		}
 
 		if (safe_ioctl(I2C_FUNCS, &_functionality) < 0) {
+			// The destructor won't be called.
+			close(_fd);
 			throw exception<std::logic_error, Log>("gpio_smbus::gpio_smbus() I2C_FUNCS failed", 0x106df);
 		}
 
-- 
2.43.0


From 9499a6cb4eebfe24bc3af91cd5ecac6131270a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 067/104] fix: invalid arguments of a GPIO PWM emulator ended
 the process

---
 src/i/gpio_pwm_base.i.h     |  4 ++--
 src/x/gpio_pwm_emulator.x.h | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/i/gpio_pwm_base.i.h b/src/i/gpio_pwm_base.i.h
index fd521ad..88bc7b6 100644
--- a/src/i/gpio_pwm_base.i.h
+++ b/src/i/gpio_pwm_base.i.h
@@ -50,11 +50,11 @@ namespace abc {
 
 
 	/**
-	 * @brief			Returns the duration of the PWM period in `gpio_pwm_duration` units based on the given frequency.
+	 * @brief			Returns the duration of the PWM period in `gpio_pwm_duration` units based on the given frequency. (0 if the frequency is 0.)
 	 * @param frequency	Frequency in Hz (ticks per second).
 	 */
 	constexpr gpio_pwm_duration gpio_pwm_period(gpio_pwm_pulse_frequency_t frequency) noexcept {
-		return gpio_pwm_duration(gpio_pwm_duration::period::den / frequency);
+		return gpio_pwm_duration(frequency != 0 ? gpio_pwm_duration::period::den / frequency : 0);
 	}
 
 
diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e1b7739..e3f0ab4 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -46,12 +46,15 @@ namespace abc {
 		, _period(gpio_pwm_period(frequency))
 		, _duty_cycle(0)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
 
+		if (frequency == 0) {
+			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() frequency", 0x107bb);
+		}
+
 		if (min_pulse_width > max_pulse_width) {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() min_pulse_width", 0x106cf);
 		}
@@ -60,6 +63,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() max_pulse_width", 0x106d0);
 		}
 
+		// The thread must not start until nothing can fail any more. std::~thread() terminates the process if the thread is running.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106d1, "gpio_pwm_emulator::gpio_pwm_emulator() Done.");
 		}
-- 
2.43.0


From 3a2e44a5062627d6b4da526b77d1a71761ebf166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 068/104] fix: a GPIO PWM emulator could miss a change of the
 duty cycle or its destruction

---
 src/x/gpio_pwm_emulator.x.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e3f0ab4..18cd8ee 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -85,6 +85,7 @@ namespace abc {
 		}
 
 		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
 			_quit = true;
 
 			_control_condition.notify_all();
@@ -123,6 +124,7 @@ namespace abc {
 		bool should_notify = (_duty_cycle == gpio_pwm_duty_cycle::min || _duty_cycle == gpio_pwm_duty_cycle::max);
 
 		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
 			_duty_cycle = duty_cycle;
 
 			if (should_notify) {
@@ -168,7 +170,7 @@ namespace abc {
 				this_ptr->_line.put_level(level);
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait_for(lock, this_ptr->const_level_period);
+					this_ptr->_control_condition.wait_for(lock, this_ptr->const_level_period, [this_ptr, duty_cycle] { return this_ptr->_quit || this_ptr->_duty_cycle != duty_cycle; });
 
 					quit = this_ptr->_quit;
 					duty_cycle = this_ptr->_duty_cycle;
-- 
2.43.0


From 05ae5346ad59f356cd404c03ae44409a2bef61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 069/104] fix: a missing motion sensor of a motion tracker
 ended the process

---
 src/x/gpio_smbus_motion_tracker.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 0b12045..e8a45c8 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -43,8 +43,7 @@ namespace abc {
 		, _speed(0)
 		, _run(false)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10753, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Start.");
 		}
@@ -53,6 +52,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() motion", 0x10754);
 		}
 
+		// The thread must not start until nothing can fail any more. std::~thread() terminates the process if the thread is running.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10755, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Done.");
 		}
-- 
2.43.0


From 946a65a5bec7f9217206945fca6deee4607add98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 070/104] fix: a motion tracker could miss its start, and its
 destruction could hang

---
 src/x/gpio_smbus_motion_tracker.x.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index e8a45c8..c39e6f9 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -67,7 +67,10 @@ namespace abc {
 			_log->put_any(category::abc::gpio, severity::abc::optional, 0x10756, "gpio_smbus_motion_tracker::~gpio_smbus_motion_tracker() Start.");
 		}
 
-		_quit = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_quit = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -89,7 +92,10 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::start() {
-		_run = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_run = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -193,7 +199,7 @@ namespace abc {
 				// Sleep until the owning instance fires the condition.
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait(lock);
+					this_ptr->_control_condition.wait(lock, [this_ptr] { return this_ptr->_quit || this_ptr->_run; });
 
 					quit = this_ptr->_quit;
 					run = this_ptr->_run;
-- 
2.43.0


From 55098f534d4962c5f423ae3e4b887d8ee42b82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 071/104] fix: a value that was set on a running motion tracker
 could be lost

---
 src/i/gpio_smbus_motion_tracker.i.h | 5 +++++
 src/x/gpio_smbus_motion_tracker.x.h | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/i/gpio_smbus_motion_tracker.i.h b/src/i/gpio_smbus_motion_tracker.i.h
index ded17fa..b0119fc 100644
--- a/src/i/gpio_smbus_motion_tracker.i.h
+++ b/src/i/gpio_smbus_motion_tracker.i.h
@@ -170,6 +170,11 @@ namespace abc {
 		 */
 		std::atomic<gpio_smbus_motion_value_t> _speed;
 
+		/**
+		 * @brief				Keeps a value from being set while it is being updated.
+		 */
+		std::mutex _value_mutex;
+
 		/**
 		 * @brief				Mutex needed for `_control_condition`.
 		 */
diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index c39e6f9..db62128 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -136,24 +136,28 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::set_depth(gpio_smbus_motion_value_t value) noexcept {
+		std::lock_guard<std::mutex> lock(_value_mutex);
 		_depth = value;
 	}
 
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::set_width(gpio_smbus_motion_value_t value) noexcept {
+		std::lock_guard<std::mutex> lock(_value_mutex);
 		_width = value;
 	}
 
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::set_direction(gpio_smbus_motion_value_t value) noexcept {
+		std::lock_guard<std::mutex> lock(_value_mutex);
 		_direction = value;
 	}
 
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::set_speed(gpio_smbus_motion_value_t value) noexcept {
+		std::lock_guard<std::mutex> lock(_value_mutex);
 		_speed = value;
 	}
 
@@ -231,6 +235,9 @@ namespace abc {
 			// Snap the current time point.
 			clock::time_point curr_time_point = clock::now();
 
+			// A value must not be set from outside between reading it and updating it.
+			std::unique_lock<std::mutex> value_lock(this_ptr->_value_mutex);
+
 			// Read the atomic members once.
 			gpio_smbus_motion_value_t prev_depth = this_ptr->_depth;
 			gpio_smbus_motion_value_t prev_width = this_ptr->_width;
@@ -273,6 +280,8 @@ namespace abc {
 				this_ptr->_speed = prev_speed + (prev_accel * sec) + (accel_accel * sec * sec / 2.0);
 			}
 
+			value_lock.unlock();
+
 			prev_time_point = curr_time_point;
 			prev_accel = curr_accel;
 			prev_gyro = curr_gyro;
-- 
2.43.0


From 11be587cb5b65958871134b0a747de44e058cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 072/104] fix: a failed transfer turned uninitialized memory
 into a motion measurement

---
 src/x/gpio_smbus_motion.x.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index b6a053d..c93adbf 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -131,38 +131,45 @@ namespace abc {
 		std::uint16_t temp_ui16;
 
 		if ((mask & gpio_smbus_motion_channel::accel_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16);
-			measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16)) {
+				measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16);
-			measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16)) {
+				measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16);
-			measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16)) {
+				measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16);
-			measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16)) {
+				measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16);
-			measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16)) {
+				measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16);
-			measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16)) {
+				measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::temperature) != 0) {
-			_smbus->get_word(_smbus_target, reg_temperature, temp_ui16);
-			measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_temperature, temp_ui16)) {
+				measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 318985133664f78b3a05ce84bcdcce9e0eec98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 073/104] fix: the calibration of a motion sensor overflowed

---
 src/x/gpio_smbus_motion.x.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index c93adbf..25ecc14 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -68,7 +68,13 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motion<Log>::calibrate(gpio_smbus_motion_channel_t mask) noexcept {
-		gpio_smbus_motion_measurements measurements{ };
+		// A sum of measurements doesn't fit in a measurement.
+		long sum_accel_x = 0;
+		long sum_accel_y = 0;
+		long sum_accel_z = 0;
+		long sum_gyro_x = 0;
+		long sum_gyro_y = 0;
+		long sum_gyro_z = 0;
 
 		constexpr int reps_skip = 5;
 		constexpr int reps_take = 20;
@@ -87,22 +93,22 @@ namespace abc {
 					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
 			}
 
-			measurements.accel_x += temp.accel_x;
-			measurements.accel_y += temp.accel_y;
-			measurements.accel_z += temp.accel_z;
+			sum_accel_x += temp.accel_x;
+			sum_accel_y += temp.accel_y;
+			sum_accel_z += temp.accel_z;
 
-			measurements.gyro_x += temp.gyro_x;
-			measurements.gyro_y += temp.gyro_y;
-			measurements.gyro_z += temp.gyro_z;
+			sum_gyro_x += temp.gyro_x;
+			sum_gyro_y += temp.gyro_y;
+			sum_gyro_z += temp.gyro_z;
 		}
 
-		_calibration.accel_x = measurements.accel_x / reps_take;
-		_calibration.accel_y = measurements.accel_y / reps_take;
-		_calibration.accel_z = measurements.accel_z / reps_take;
+		_calibration.accel_x = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_x / reps_take);
+		_calibration.accel_y = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_y / reps_take);
+		_calibration.accel_z = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_z / reps_take);
 
-		_calibration.gyro_x = measurements.gyro_x / reps_take;
-		_calibration.gyro_y = measurements.gyro_y / reps_take;
-		_calibration.gyro_z = measurements.gyro_z / reps_take;
+		_calibration.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_x / reps_take);
+		_calibration.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_y / reps_take);
+		_calibration.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_z / reps_take);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074f, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-- 
2.43.0


From c43f9cacea81eea433dd3e00139773f3651c6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 074/104] fix: some frequencies of a SMBus PWM divided by zero

---
 src/i/gpio_smbus_pwm.i.h |  2 +-
 src/x/gpio_smbus_pwm.x.h | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/i/gpio_smbus_pwm.i.h b/src/i/gpio_smbus_pwm.i.h
index 781097a..d88e8bf 100644
--- a/src/i/gpio_smbus_pwm.i.h
+++ b/src/i/gpio_smbus_pwm.i.h
@@ -110,7 +110,7 @@ namespace abc {
 	private:
 		/**
 		 * @brief						Calculates ARR from a PWM period.
-		 * @details						Returns a number that is close to sqrt(period) and is round to 1000.
+		 * @details						Returns a number that is close to sqrt(period), and is round to 1000 if it is 1000 or more.
 		 * @param						PWM period.
 		 */
 		static gpio_smbus_clock_frequency_t get_autoreload_from_period(gpio_smbus_clock_frequency_t period) noexcept;
diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 76b264f..0026fa1 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -63,6 +63,14 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() smbus == nullptr", 0x10706);
 		}
 
+		if (_frequency == 0) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() frequency == 0", 0x107bc);
+		}
+
+		if (_min_pulse_width > _max_pulse_width) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() min_pulse_width > max_pulse_width", 0x107bd);
+		}
+
 		// Adjust min/max_pulse_width to lock frequency.
 		if (_max_pulse_width != 0) {
 			if (log != nullptr) {
@@ -81,8 +89,15 @@ namespace abc {
 
 		// Calculate auto_reload and prescaler.
 		_period = _smbus_target.clock_frequency() / _frequency;
+		if (_period == 0) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() frequency > clock frequency", 0x107be);
+		}
+
 		_autoreload = get_autoreload_from_period(_period);
 		_prescaler = _period / _autoreload;
+		if (_autoreload - 1 > 0xffff || _prescaler - 1 > 0xffff) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() period doesn't fit in the registers", 0x107bf);
+		}
 
 		// Adjust min/max_pulse_width by auto_reload and prescaler.
 		if (_max_pulse_width == 0) {
@@ -173,7 +188,15 @@ namespace abc {
 			autoreload_bit_count++;
 		}
 
-		return static_cast<gpio_smbus_clock_frequency_t>(((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL);
+		std::uint64_t autoreload = 1ULL << autoreload_bit_count;
+		if (autoreload >= 1000ULL) {
+			autoreload = (autoreload / 1000ULL) * 1000ULL;
+		}
+		else if (autoreload > period) {
+			autoreload = period;
+		}
+
+		return static_cast<gpio_smbus_clock_frequency_t>(autoreload);
 	}
 
 
-- 
2.43.0


From 941b68450dc9386c392fe3a2d98cb4695e6d9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 075/104] fix: the maximum distance of the first ultrasonic
 measurement was used for all

---
 src/x/gpio_ultrasonic.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_ultrasonic.x.h b/src/x/gpio_ultrasonic.x.h
index 06a82e2..e7efb5c 100644
--- a/src/x/gpio_ultrasonic.x.h
+++ b/src/x/gpio_ultrasonic.x.h
@@ -52,7 +52,7 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline std::size_t gpio_ultrasonic<DistanceScale, Log>::measure_distance(std::size_t max_distance) const noexcept {
-		static const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
+		const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
 
 		// Clear and send a pulse.
 		_trigger_line.put_level(gpio_level::low, microseconds(10));
-- 
2.43.0


From 8cf914f7b7c8cea6bae5379d1815812108b19f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 076/104] fix: the duty cycle of a motor couldn't be gotten

---
 src/x/gpio_smbus_motor.x.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_motor.x.h b/src/x/gpio_smbus_motor.x.h
index 67f6b45..3c76639 100644
--- a/src/x/gpio_smbus_motor.x.h
+++ b/src/x/gpio_smbus_motor.x.h
@@ -65,7 +65,14 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motor<Log>::set_duty_cycle(gpio_pwm_duty_cycle_t duty_cycle) noexcept {
-		_pwm.set_duty_cycle(duty_cycle);
+		_duty_cycle = duty_cycle <= gpio_pwm_duty_cycle::max ? duty_cycle : gpio_pwm_duty_cycle::max;
+		_pwm.set_duty_cycle(_duty_cycle);
+	}
+
+
+	template <typename Log>
+	inline gpio_pwm_duty_cycle_t gpio_smbus_motor<Log>::get_duty_cycle() const noexcept {
+		return _duty_cycle;
 	}
 
 
-- 
2.43.0


From e5c5cffebfa04ce611b4bbb1d35a0f25a9b96df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 077/104] fix: a GPIO PWM emulator could miss a change of the
 duty cycle by two threads

---
 src/x/gpio_pwm_emulator.x.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index 18cd8ee..5eebbff 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -121,10 +121,9 @@ namespace abc {
 			duty_cycle = gpio_pwm_duty_cycle::max;
 		}
 
-		bool should_notify = (_duty_cycle == gpio_pwm_duty_cycle::min || _duty_cycle == gpio_pwm_duty_cycle::max);
-
 		{
 			std::lock_guard<std::mutex> lock(_control_mutex);
+			bool should_notify = (_duty_cycle == gpio_pwm_duty_cycle::min || _duty_cycle == gpio_pwm_duty_cycle::max);
 			_duty_cycle = duty_cycle;
 
 			if (should_notify) {
-- 
2.43.0


From 65d21bd369bcc9446db915b2f54ad928fa78d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 078/104] fix: a long player type overflowed a buffer of the
 sample games

---
 samples/connect4/game.h  | 4 +++-
 samples/tictactoe/game.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index ed63167..193f028 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1138,7 +1138,9 @@ namespace abc { namespace samples {
 						return false;
 					}
 
-					std::strcpy(players[i], token->value.string);
+					// No valid value is longer than this buffer.
+					std::strncpy(players[i], token->value.string, sizeof(players[i]) - 1);
+					players[i][sizeof(players[i]) - 1] = '\0';
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::debug, 0x10638, "players[%zu]='%s'", i, players[i]);
 					}
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index a733686..801ca68 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -919,7 +919,9 @@ namespace abc { namespace samples {
 						return false;
 					}
 
-					std::strcpy(players[i], token->value.string);
+					// No valid value is longer than this buffer.
+					std::strncpy(players[i], token->value.string, sizeof(players[i]) - 1);
+					players[i][sizeof(players[i]) - 1] = '\0';
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::debug, 0x105cb, "players[%zu]='%s'", i, players[i]);
 					}
-- 
2.43.0


From 419841c60699b460974a5015d9f41aa87fc87b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 079/104] fix: an unknown resource under /games of the sample
 games got no response, or claimed a player

---
 samples/connect4/game.h  | 10 ++++++++--
 samples/tictactoe/game.h | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 193f028..2e59e68 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -941,15 +941,21 @@ namespace abc { namespace samples {
 			char moves[6 + 1 + 1];
 			moves[0] = '\0';
 
+			int size = 0;
+
 			if (std::sscanf(resource_games, "/%u/players/%u/%6s", &game_id, &player_id, moves) == 3) {
 				accept_move(http, method, static_cast<endpoint_game_id_t>(game_id), static_cast<endpoint_player_id_t>(player_id), moves);
 			}
-			else if (std::sscanf(resource_games, "/%u/players/%u", &game_id, &player_i) == 2) {
+			else if (std::sscanf(resource_games, "/%u/players/%u%n", &game_id, &player_i, &size) == 2 && resource_games[size] == '\0') {
 				claim_player(http, method, static_cast<endpoint_game_id_t>(game_id), player_i);
 			}
-			else if (std::sscanf(resource_games, "/%u/moves?since=%u", &game_id, &since_move_i) == 2) {
+			else if (std::sscanf(resource_games, "/%u/moves?since=%u%n", &game_id, &since_move_i, &size) == 2 && resource_games[size] == '\0') {
 				get_moves(http, method, static_cast<endpoint_game_id_t>(game_id), since_move_i);
 			}
+			else {
+				// 404
+				base::send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "The requested resource was not found.", 0x10837);
+			}
 		}
 	}
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 801ca68..a4279c5 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -722,15 +722,21 @@ namespace abc { namespace samples {
 			char moves[6 + 1 + 1];
 			moves[0] = '\0';
 
+			int size = 0;
+
 			if (std::sscanf(resource_games, "/%u/players/%u/%6s", &game_id, &player_id, moves) == 3) {
 				accept_move(http, method, static_cast<endpoint_game_id_t>(game_id), static_cast<endpoint_player_id_t>(player_id), moves);
 			}
-			else if (std::sscanf(resource_games, "/%u/players/%u", &game_id, &player_i) == 2) {
+			else if (std::sscanf(resource_games, "/%u/players/%u%n", &game_id, &player_i, &size) == 2 && resource_games[size] == '\0') {
 				claim_player(http, method, static_cast<endpoint_game_id_t>(game_id), player_i);
 			}
-			else if (std::sscanf(resource_games, "/%u/moves?since=%u", &game_id, &since_move_i) == 2) {
+			else if (std::sscanf(resource_games, "/%u/moves?since=%u%n", &game_id, &since_move_i, &size) == 2 && resource_games[size] == '\0') {
 				get_moves(http, method, static_cast<endpoint_game_id_t>(game_id), since_move_i);
 			}
+			else {
+				// 404
+				base::send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "The requested resource was not found.", 0x10836);
+			}
 		}
 	}
 
-- 
2.43.0


From df443f35b823d5747989b7bf9f9c192cd33b8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 080/104] fix: a request without a Content-Type header got no
 response from the sample games

---
 samples/connect4/game.h  | 6 ++++++
 samples/tictactoe/game.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 2e59e68..a59594c 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1676,6 +1676,12 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!has_content_type_json) {
+			// The Content-Type is missing.
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x10839);
+		}
+
 		return has_content_type_json;
 	}
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index a4279c5..096a4c2 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1457,6 +1457,12 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!has_content_type_json) {
+			// The Content-Type is missing.
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x10838);
+		}
+
 		return has_content_type_json;
 	}
 
-- 
2.43.0


From b9fe7c6a2173249e9792f985dfb3589f83c44e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 081/104] fix: a fractional move was accepted by the sample
 games

---
 samples/connect4/game.h  | 8 ++++----
 samples/tictactoe/game.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index a59594c..6349f42 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1364,7 +1364,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number < row_count)) {
+			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number < row_count && token->value.number == static_cast<int>(token->value.number))) {
 				// Not a valid row.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10653, "Content error: Expected 0 <= number <= 5.");
@@ -1375,7 +1375,7 @@ namespace abc { namespace samples {
 				return false;
 			}
 
-			mv.row = token->value.number;
+			mv.row = static_cast<count_t>(token->value.number);
 
 			json.get_token(token, sizeof(buffer));
 			if (token->item != abc::json::item::property || !ascii::are_equal(token->value.property, "col")) {
@@ -1390,7 +1390,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number < col_count)) {
+			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number < col_count && token->value.number == static_cast<int>(token->value.number))) {
 				// Not a valid row.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10657, "Content error: Expected 0 <= number <= 7.");
@@ -1401,7 +1401,7 @@ namespace abc { namespace samples {
 				return false;
 			}
 
-			mv.col = token->value.number;
+			mv.col = static_cast<count_t>(token->value.number);
 		}
 
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 096a4c2..a401645 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1145,7 +1145,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number <= 2)) {
+			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number <= 2 && token->value.number == static_cast<int>(token->value.number))) {
 				// Not a valid row.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105e6, "Content error: Expected 0 <= number <= 2.");
@@ -1156,7 +1156,7 @@ namespace abc { namespace samples {
 				return false;
 			}
 
-			mv.row = token->value.number;
+			mv.row = static_cast<move_t>(token->value.number);
 
 			json.get_token(token, sizeof(buffer));
 			if (token->item != abc::json::item::property || !ascii::are_equal(token->value.property, "col")) {
@@ -1171,7 +1171,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number <= 2)) {
+			if (token->item != abc::json::item::number || !(0 <= token->value.number && token->value.number <= 2 && token->value.number == static_cast<int>(token->value.number))) {
 				// Not a valid row.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105ea, "Content error: Expected 0 <= number <= 2.");
@@ -1182,7 +1182,7 @@ namespace abc { namespace samples {
 				return false;
 			}
 
-			mv.col = token->value.number;
+			mv.col = static_cast<move_t>(token->value.number);
 		}
 
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
-- 
2.43.0


From ce4fc0e85b995ff3b43a88df9ac486af2d4b7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 082/104] fix: a truncated move was accepted by the sample
 games

---
 samples/connect4/game.h  | 18 ++++++++++++++++++
 samples/tictactoe/game.h | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 6349f42..bac6aa1 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1402,6 +1402,24 @@ namespace abc { namespace samples {
 			}
 
 			mv.col = static_cast<count_t>(token->value.number);
+
+			// Future-proof: Ignore unknown properties.
+			json.get_token(token, sizeof(buffer));
+			while (token->item == abc::json::item::property) {
+				json.skip_value();
+				json.get_token(token, sizeof(buffer));
+			}
+
+			if (token->item != abc::json::item::end_object) {
+				// Not }.
+				if (base::_log != nullptr) {
+					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1083c, "Content error: Expected '}'.");
+				}
+
+				// 400
+				base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, 0x1083d);
+				return false;
+			}
 		}
 
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index a401645..da90069 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1183,6 +1183,24 @@ namespace abc { namespace samples {
 			}
 
 			mv.col = static_cast<move_t>(token->value.number);
+
+			// Future-proof: Ignore unknown properties.
+			json.get_token(token, sizeof(buffer));
+			while (token->item == abc::json::item::property) {
+				json.skip_value();
+				json.get_token(token, sizeof(buffer));
+			}
+
+			if (token->item != abc::json::item::end_object) {
+				// Not }.
+				if (base::_log != nullptr) {
+					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1083a, "Content error: Expected '}'.");
+				}
+
+				// 400
+				base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, 0x1083b);
+				return false;
+			}
 		}
 
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
-- 
2.43.0


From b5b7b1e431541e886eb3782af6590b0787acb842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 083/104] fix: a system with only zero coefficients was
 reported as solvable

---
 samples/basic/equations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index a4acea7..c60bce8 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -230,6 +230,10 @@ namespace abc { namespace samples {
 			// 0 solutions
 			status = 0;
 		}
+		else if (a[0][0] == 0 && a[0][1] == 0 && a[1][0] == 0 && a[1][1] == 0 && (b[0] != 0 || b[1] != 0)) {
+			// 0 solutions
+			status = 0;
+		}
 		else {
 			// inf. solutions
 			status = 2;
-- 
2.43.0


From 88181ff2aaf294324a1e15db3eafa8af51f02e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 084/104] fix: a truncated response was sent for a system whose
 solution is out of range

---
 samples/basic/equations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index c60bce8..a83fa70 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -23,6 +23,8 @@ SOFTWARE.
 */
 
 
+#include <cmath>
+
 #include "../../src/ascii.h"
 #include "../../src/endpoint.h"
 #include "../../src/http.h"
@@ -216,6 +218,12 @@ namespace abc { namespace samples {
 		double det_x = (b[0] * a[1][1]) - (a[0][1] * b[1]);
 		double det_y = (a[0][0] * b[1]) - (b[0] * a[1][0]);
 
+		if (!std::isfinite(det) || !std::isfinite(det_x) || !std::isfinite(det_y) || (det != 0 && (!std::isfinite(det_x / det) || !std::isfinite(det_y / det)))) {
+			// The solution is out of range, return 400.
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The numbers are too large.", 0x1083e);
+			return;
+		}
+
 		std::int32_t status = -1;
 		double x = 0;
 		double y = 0;
-- 
2.43.0


From 8353c89ca5c7fd83a6c013558326ff21246ffed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 085/104] fix: a game or a player of the sample games could get
 the ID 0, and both players the same ID

---
 samples/connect4/game.h    | 19 ++++++++++++++++---
 samples/connect4/game.i.h  |  1 +
 samples/tictactoe/game.h   | 19 ++++++++++++++++---
 samples/tictactoe/game.i.h |  1 +
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index bac6aa1..ac94df5 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1011,17 +1011,17 @@ namespace abc { namespace samples {
 			return false;
 		}
 
-		endpoint_game_id_t endpoint_game_id = ((std::rand() & 0xffff) << 16) | ((std::rand() & 0xffff));
+		endpoint_game_id_t endpoint_game_id = create_id(0);
 
 		endpoint_player_id_t endpoint_player_x_id = 0;
 		endpoint_player_id_t endpoint_player_o_id = 0;
 
 		if (player_x_type == player_type::external) {
-			endpoint_player_x_id = ((std::rand() & 0xffff) << 16) | ((std::rand() & 0xffff));
+			endpoint_player_x_id = create_id(0);
 		}
 
 		if (player_o_type == player_type::external) {
-			endpoint_player_o_id = ((std::rand() & 0xffff) << 16) | ((std::rand() & 0xffff));
+			endpoint_player_o_id = create_id(endpoint_player_x_id);
 		}
 
 		_games[game_i].reset(endpoint_game_id, player_x_type, endpoint_player_x_id, player_o_type, endpoint_player_o_id, base::_log);
@@ -1067,6 +1067,19 @@ namespace abc { namespace samples {
 	}
 
 
+	template <typename Limits, typename Log>
+	inline std::uint32_t game_endpoint<Limits, Log>::create_id(std::uint32_t other_id) {
+		std::uint32_t id = 0;
+
+		// 0 means there is no ID.
+		while (id == 0 || id == other_id) {
+			id = (static_cast<std::uint32_t>(std::rand() & 0xffff) << 16) | static_cast<std::uint32_t>(std::rand() & 0xffff);
+		}
+
+		return id;
+	}
+
+
 	template <typename Limits, typename Log>
 	inline bool game_endpoint<Limits, Log>::get_player_types(abc::http_server_stream<Log>& http, const char* /*method*/, player_type_t& player_x_type, player_type_t& player_o_type) {
 		char players[2][abc::size::_64 + 1];
diff --git a/samples/connect4/game.i.h b/samples/connect4/game.i.h
index e4327f5..9ad42b4 100644
--- a/samples/connect4/game.i.h
+++ b/samples/connect4/game.i.h
@@ -327,6 +327,7 @@ namespace abc { namespace samples {
 
 		bool			create_game(abc::http_server_stream<Log>& http, const char* method);
 		bool			get_player_types(abc::http_server_stream<Log>& http, const char* method, player_type_t& player_x_type, player_type_t& player_o_type);
+		static std::uint32_t	create_id(std::uint32_t other_id);
 		bool			claim_player(abc::http_server_stream<Log>& http, const char* method, endpoint_game_id_t endpoint_game_id, unsigned player_i);
 		bool			accept_move(abc::http_server_stream<Log>& http, const char* method, endpoint_game_id_t endpoint_game_id, endpoint_player_id_t endpoint_player_id, const char* moves);
 		bool			get_moves(abc::http_server_stream<Log>& http, const char* method, endpoint_game_id_t endpoint_game_id, unsigned since_move_i);
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index da90069..9b1f245 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -792,17 +792,17 @@ namespace abc { namespace samples {
 			return false;
 		}
 
-		endpoint_game_id_t endpoint_game_id = ((std::rand() & 0xffff) << 16) | ((std::rand() & 0xffff));
+		endpoint_game_id_t endpoint_game_id = create_id(0);
 
 		endpoint_player_id_t endpoint_player_x_id = 0;
 		endpoint_player_id_t endpoint_player_o_id = 0;
 
 		if (player_x_type == player_type::external) {
-			endpoint_player_x_id = ((std::rand() & 0xffff) << 16) | ((std::rand() & 0xffff));
+			endpoint_player_x_id = create_id(0);
 		}
 
 		if (player_o_type == player_type::external) {
-			endpoint_player_o_id = ((std::rand() & 0xffff) << 16) | ((std::rand() & 0xffff));
+			endpoint_player_o_id = create_id(endpoint_player_x_id);
 		}
 
 		_games[game_i].reset(endpoint_game_id, player_x_type, endpoint_player_x_id, player_o_type, endpoint_player_o_id, base::_log);
@@ -848,6 +848,19 @@ namespace abc { namespace samples {
 	}
 
 
+	template <typename Limits, typename Log>
+	inline std::uint32_t game_endpoint<Limits, Log>::create_id(std::uint32_t other_id) {
+		std::uint32_t id = 0;
+
+		// 0 means there is no ID.
+		while (id == 0 || id == other_id) {
+			id = (static_cast<std::uint32_t>(std::rand() & 0xffff) << 16) | static_cast<std::uint32_t>(std::rand() & 0xffff);
+		}
+
+		return id;
+	}
+
+
 	template <typename Limits, typename Log>
 	inline bool game_endpoint<Limits, Log>::get_player_types(abc::http_server_stream<Log>& http, const char* /*method*/, player_type_t& player_x_type, player_type_t& player_o_type) {
 		char players[2][abc::size::_64 + 1];
diff --git a/samples/tictactoe/game.i.h b/samples/tictactoe/game.i.h
index 9ea1522..14669a4 100644
--- a/samples/tictactoe/game.i.h
+++ b/samples/tictactoe/game.i.h
@@ -300,6 +300,7 @@ namespace abc { namespace samples {
 
 		bool			create_game(abc::http_server_stream<Log>& http, const char* method);
 		bool			get_player_types(abc::http_server_stream<Log>& http, const char* method, player_type_t& player_x_type, player_type_t& player_o_type);
+		static std::uint32_t	create_id(std::uint32_t other_id);
 		bool			claim_player(abc::http_server_stream<Log>& http, const char* method, endpoint_game_id_t endpoint_game_id, unsigned player_i);
 		bool			accept_move(abc::http_server_stream<Log>& http, const char* method, endpoint_game_id_t endpoint_game_id, endpoint_player_id_t endpoint_player_id, const char* moves);
 		bool			get_moves(abc::http_server_stream<Log>& http, const char* method, endpoint_game_id_t endpoint_game_id, unsigned since_move_i);
-- 
2.43.0


From c5e94340a90d27c3e5740e466535cb9895355e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 086/104] fix: the fast engine of the sample games made illegal
 moves or crashed when it had only bad moves

---
 samples/connect4/game.h  | 12 ++++++++----
 samples/tictactoe/game.h | 12 ++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index ac94df5..2f11608 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -598,11 +598,15 @@ namespace abc { namespace samples {
 			else if (min_count == valid_count) {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
-				count_t c = static_cast<count_t>(rand_i % (score_calc_t)col_count);
-				count_t r = _game->board().col_size(c);
-				move mv{ r, c };
+				for (count_t c = 0; c < col_count; c++) {
+					move mv{ _game->board().col_size(c), c };
 
-				return mv;
+					if (mv.is_valid() && itr->value[c] == score::min) {
+						if (--rand_i == 0) {
+							return mv;
+						}
+					}
+				}
 			}
 
 			// Make a weighted pick.
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 9b1f245..1dcd1e9 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -392,10 +392,18 @@ namespace abc { namespace samples {
 			}
 
 			// If all the scores are min, pick one of them.
-			else if (min_count == row_count * col_count) {
+			else if (min_count > 0 && none_count == 0 && score_sum == 0) {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
-				return move{ rand_i / (score_calc_t)col_count, rand_i % (score_calc_t)col_count };
+				for (move_t r = 0; r < row_count; r++) {
+					for (move_t c = 0; c < col_count; c++) {
+						if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none && itr->value[r][c] == score::min) {
+							if (--rand_i == 0) {
+								return move{ r, c };
+							}
+						}
+					}
+				}
 			}
 
 			// Make a weighted pick.
-- 
2.43.0


From 0917958374cb6eb2009141fedc8cd0bd8e2831f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 087/104] fix: the games of the sample services were accessed
 by several threads at the same time

---
 samples/connect4/game.h    | 135 ++++++++++++++++++++++++++++++-------
 samples/connect4/game.i.h  |  15 ++++-
 samples/tictactoe/game.h   | 133 +++++++++++++++++++++++++++++-------
 samples/tictactoe/game.i.h |  15 ++++-
 4 files changed, 243 insertions(+), 55 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 2f11608..a978a09 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -392,7 +392,20 @@ namespace abc { namespace samples {
 			_log->put_any(category::abc::samples, severity::debug, 0x10619, "player_agent::make_move_async()");
 		}
 
-		std::thread(player_agent::make_move_proc, this).detach();
+		if (_player_type == player_type::external) {
+			return;
+		}
+
+		// The previous thread has made its move.
+		join();
+		_thread = std::thread(player_agent::make_move_proc, this);
+	}
+
+
+	inline void player_agent::join() {
+		if (_thread.joinable()) {
+			_thread.join();
+		}
 	}
 
 
@@ -542,9 +555,11 @@ namespace abc { namespace samples {
 
 
 	inline move player_agent::fast_find_best_move() {
+		board game_board = _game->board();
+
 		std::lock_guard<std::mutex> lock(_vmem->mutex);
 
-		vmem_map::iterator itr = ensure_board_state_in_map(_game->board().state());
+		vmem_map::iterator itr = ensure_board_state_in_map(game_board.state());
 
 		move some_move;
 		if (itr.can_deref()) {
@@ -558,7 +573,7 @@ namespace abc { namespace samples {
 			score_calc_t score_sum = 0;
 
 			for (count_t c = 0; c < col_count; c++) {
-				move mv{ _game->board().col_size(c), c };
+				move mv{ game_board.col_size(c), c };
 
 				if (mv.is_valid()) {
 					valid_count++;
@@ -584,7 +599,7 @@ namespace abc { namespace samples {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % max_count);
 
 				for (count_t c = 0; c < col_count; c++) {
-					move mv{ _game->board().col_size(c), c };
+					move mv{ game_board.col_size(c), c };
 
 					if (mv.is_valid() && itr->value[c] == score::max) {
 						if (--rand_i == 0) {
@@ -599,7 +614,7 @@ namespace abc { namespace samples {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
 				for (count_t c = 0; c < col_count; c++) {
-					move mv{ _game->board().col_size(c), c };
+					move mv{ game_board.col_size(c), c };
 
 					if (mv.is_valid() && itr->value[c] == score::min) {
 						if (--rand_i == 0) {
@@ -618,7 +633,7 @@ namespace abc { namespace samples {
 				score_calc_t rand_sum = static_cast<score_calc_t>(1 + std::rand() % score_sum);
 
 				for (count_t c = 0; c < col_count; c++) {
-					count_t r = _game->board().col_size(c);
+					count_t r = game_board.col_size(c);
 					move mv{ r, c };
 	
 					score_calc_t curr_score = itr->value[c];
@@ -655,16 +670,19 @@ namespace abc { namespace samples {
 
 
 	inline void player_agent::learn() {
-		unsigned move_count = _game->board().move_count();
+		move moves[game::max_move_count];
+		board game_board = _game->board(moves);
+
+		unsigned move_count = game_board.move_count();
 
 		const char* label = "ERROR!";
 		score_t gain = 0;
-		if (_game->board().winner() == _player_id) {
+		if (game_board.winner() == _player_id) {
 			// Win
 			label = "win";
 			gain = score::win;
 		}
-		else if (_game->board().winner() == player_id::none) {
+		else if (game_board.winner() == player_id::none) {
 			// Draw
 			label = "draw";
 			gain = score::draw;
@@ -674,7 +692,7 @@ namespace abc { namespace samples {
 			gain = score::loss;
 		}
 
-		if (_game->board().winner() != _player_id) {
+		if (game_board.winner() != _player_id) {
 			if (move_count > 32) {
 				gain += 3;
 			}
@@ -690,7 +708,7 @@ namespace abc { namespace samples {
 
 		board temp_board;
 		for (unsigned i = 0; i < move_count; i++) {
-			move mv(_game->moves()[i]);
+			move mv(moves[i]);
 
 			if (temp_board.current_player_id() == _player_id) {
 				vmem_map::iterator itr = ensure_board_state_in_map(temp_board.state());
@@ -746,7 +764,24 @@ namespace abc { namespace samples {
 	// --------------------------------------------------------------
 
 
+	inline game::~game() {
+		{
+			std::lock_guard<std::mutex> lock(_mutex);
+			_is_stopping = true;
+		}
+
+		_agent_x.join();
+		_agent_o.join();
+	}
+
+
 	inline void game::reset(player_type_t player_x_type, player_type_t player_o_type, log_ostream* log) {
+		// The previous game is over, but its last engine may still be learning.
+		_agent_x.join();
+		_agent_o.join();
+
+		std::lock_guard<std::mutex> lock(_mutex);
+
 		_agent_x.reset(this, player_id::x, player_x_type, log);
 		_agent_o.reset(this, player_id::o, player_o_type, log);
 		_log = log;
@@ -755,6 +790,8 @@ namespace abc { namespace samples {
 
 
 	inline void game::start() {
+		std::lock_guard<std::mutex> lock(_mutex);
+
 		if (_log != nullptr) {
 			_log->put_any(category::abc::samples, severity::optional, 0x10621, "game::start(): player_id=%u", _board.current_player_id());
 		}
@@ -768,7 +805,13 @@ namespace abc { namespace samples {
 	}
 
 
-	inline bool game::accept_move(player_id_t player_id, const move& move) {
+	inline bool game::accept_move(player_id_t player_id, const move& move, samples::board* accepted_board) {
+		std::unique_lock<std::mutex> lock(_mutex);
+
+		if (_is_stopping) {
+			return false;
+		}
+
 		if (player_id != _board.current_player_id()) {
 			return false;
 		}
@@ -782,6 +825,10 @@ namespace abc { namespace samples {
 
 		if (accepted) {
 			_moves[_board.move_count() - 1] = move;
+
+			if (accepted_board != nullptr) {
+				*accepted_board = _board;
+			}
 		}
 
 		if (_board.is_game_over()) {
@@ -798,6 +845,9 @@ namespace abc { namespace samples {
 				}
 			}
 
+			// An engine learns on its own thread.
+			lock.unlock();
+
 			if (_agent_x.player_type() == player_type::fast_engine && _agent_o.player_type() == player_type::slow_engine) {
 				_agent_x.learn();
 			}
@@ -818,13 +868,18 @@ namespace abc { namespace samples {
 	}
 
 
-	inline const samples::board& game::board() const {
+	inline samples::board game::board() const {
+		std::lock_guard<std::mutex> lock(_mutex);
+
 		return _board;
 	}
 
 
-	inline const move* game::moves() const {
-		return _moves;
+	inline samples::board game::board(move moves[max_move_count]) const {
+		std::lock_guard<std::mutex> lock(_mutex);
+
+		std::copy(_moves, _moves + _board.move_count(), moves);
+		return _board;
 	}
 
 
@@ -985,6 +1040,8 @@ namespace abc { namespace samples {
 			return false;
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		// Find a slot
 		std::size_t game_i = max_game_count;
 		if (_game_count < max_game_count) {
@@ -1004,6 +1061,8 @@ namespace abc { namespace samples {
 		}
 
 		if (game_i >= max_game_count) {
+			lock.unlock();
+
 			constexpr const char* no_game_capacity = "The service has a temporary game capacity shortage.";
 
 			if (base::_log != nullptr) {
@@ -1029,6 +1088,7 @@ namespace abc { namespace samples {
 		}
 
 		_games[game_i].reset(endpoint_game_id, player_x_type, endpoint_player_x_id, player_o_type, endpoint_player_o_id, base::_log);
+		lock.unlock();
 
 		// Write the JSON to a char buffer, so we can calculate the Content-Length before we start sending the body.
 		char body[abc::size::k1 + 1];
@@ -1248,10 +1308,15 @@ namespace abc { namespace samples {
 			return false;
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
 			if (_games[game_i].id() == endpoint_game_id) {
 				endpoint_player_id_t endpoint_player_id;
-				if (!_games[game_i].claim_player(player_i, endpoint_player_id)) {
+				bool is_claimed = _games[game_i].claim_player(player_i, endpoint_player_id);
+				lock.unlock();
+
+				if (!is_claimed) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10644, "Security error: Player already claimed. game_id=%u, player_i=%u", (unsigned)endpoint_game_id, player_i);
 					}
@@ -1302,6 +1367,8 @@ namespace abc { namespace samples {
 			}
 		}
 
+		lock.unlock();
+
 		if (base::_log != nullptr) {
 			base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10648, "Resource error: Game not found. game_id=%u, player_i=%u", (unsigned)endpoint_game_id, player_i);
 		}
@@ -1439,11 +1506,15 @@ namespace abc { namespace samples {
 			}
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
 			if (_games[game_i].id() == endpoint_game_id) {
 				player_id_t player_id = _games[game_i].player_id(endpoint_player_id);
 
 				if (player_id == player_id::none) {
+					lock.unlock();
+
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10659, "Resource error: Player not found. player_id=%u", (unsigned)endpoint_player_id);
 					}
@@ -1453,7 +1524,11 @@ namespace abc { namespace samples {
 					return false;
 				}
 
-				if (!_games[game_i].accept_move(player_id, mv)) {
+				samples::board board;
+				bool is_accepted = _games[game_i].accept_move(player_id, mv, &board);
+				lock.unlock();
+
+				if (!is_accepted) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1065b, "Resource error: Move not accepted. move={ %u, %u }", mv.row, mv.col);
 					}
@@ -1471,11 +1546,11 @@ namespace abc { namespace samples {
 
 				json.put_begin_object();
 					json.put_property("i");
-					json.put_number(_games[game_i].board().move_count() - 1);
+					json.put_number(board.move_count() - 1);
 
-					if (_games[game_i].board().is_game_over()) {
+					if (board.is_game_over()) {
 						json.put_property("winner");
-						json.put_number(_games[game_i].board().winner());
+						json.put_number(board.winner());
 					}
 
 				json.put_end_object();
@@ -1512,6 +1587,8 @@ namespace abc { namespace samples {
 			}
 		}
 
+		lock.unlock();
+
 		if (base::_log != nullptr) {
 			base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1065f, "Resource error: Game not found. game_id=%u", (unsigned)endpoint_game_id);
 		}
@@ -1542,8 +1619,14 @@ namespace abc { namespace samples {
 			return false;
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
 			if (_games[game_i].id() == endpoint_game_id) {
+				move moves[game::max_move_count];
+				samples::board board = _games[game_i].board(moves);
+				lock.unlock();
+
 				// Write the JSON to a char buffer, so we can calculate the Content-Length before we start sending the body.
 				char body[abc::size::k2 + 1];
 				abc::buffer_streambuf sb(nullptr, 0, 0, body, 0, sizeof(body));
@@ -1553,25 +1636,25 @@ namespace abc { namespace samples {
 					json.put_property("moves");
 						json.put_begin_array();
 
-						for (std::size_t move_i = since_move_i; move_i < _games[game_i].board().move_count(); move_i++) {
+						for (std::size_t move_i = since_move_i; move_i < board.move_count(); move_i++) {
 							json.put_begin_object();
 								json.put_property("i");
 								json.put_number(move_i);
 								json.put_property("move");
 								json.put_begin_object();
 									json.put_property("row");
-									json.put_number(_games[game_i].moves()[move_i].row);
+									json.put_number(moves[move_i].row);
 									json.put_property("col");
-									json.put_number(_games[game_i].moves()[move_i].col);
+									json.put_number(moves[move_i].col);
 								json.put_end_object();
 							json.put_end_object();
 						}
 
 						json.put_end_array();
 
-					if (_games[game_i].board().is_game_over()) {
+					if (board.is_game_over()) {
 						json.put_property("winner");
-						json.put_number(_games[game_i].board().winner());
+						json.put_number(board.winner());
 					}
 
 				json.put_end_object();
@@ -1608,6 +1691,8 @@ namespace abc { namespace samples {
 			}
 		}
 
+		lock.unlock();
+
 		if (base::_log != nullptr) {
 			base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10666, "Resource error: Game not found. game_id=%u, since_move_i=%u", (unsigned)endpoint_game_id, since_move_i);
 		}
diff --git a/samples/connect4/game.i.h b/samples/connect4/game.i.h
index 9ad42b4..6fff689 100644
--- a/samples/connect4/game.i.h
+++ b/samples/connect4/game.i.h
@@ -209,6 +209,7 @@ namespace abc { namespace samples {
 	public:
 		void				reset(game* game, player_id_t player_id, player_type_t player_type, log_ostream* log);
 		void				make_move_async();
+		void				join();
 		void				learn();
 		player_type_t		player_type() const;
 
@@ -235,6 +236,7 @@ namespace abc { namespace samples {
 		player_type_t		_player_type	= player_type::none;
 		board				_temp_board;
 		log_ostream*		_log			= nullptr;
+		std::thread			_thread;
 
 	public:
 		static vmem_bundle*	_vmem;
@@ -248,14 +250,17 @@ namespace abc { namespace samples {
 	public:
 		static constexpr std::size_t max_move_count = row_count * col_count;
 
+	public:
+		~game();
+
 	public:
 		void					reset(player_type_t player_x_type, player_type_t player_o_type, log_ostream* log);
 		void					start();
-		bool					accept_move(player_id_t player_id, const move& move);
+		bool					accept_move(player_id_t player_id, const move& move, samples::board* accepted_board = nullptr);
 
 	public:
-		const samples::board&	board() const;
-		const move*				moves() const;
+		samples::board			board() const;
+		samples::board			board(move moves[max_move_count]) const;
 
 	private:
 		samples::board			_board;
@@ -264,6 +269,9 @@ namespace abc { namespace samples {
 		log_ostream*			_log			= nullptr;
 
 		move					_moves[max_move_count];
+
+		mutable std::mutex		_mutex;
+		bool					_is_stopping	= false;
 	};
 
 
@@ -337,6 +345,7 @@ namespace abc { namespace samples {
 		bool			verify_header_json(abc::http_server_stream<Log>& http);
 
 	private:
+		std::mutex				_mutex;
 		std::size_t				_game_count 		= 0;
 		endpoint_game			_games[max_game_count];
 	};
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 1dcd1e9..e891856 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -249,7 +249,20 @@ namespace abc { namespace samples {
 			_log->put_any(category::abc::samples, severity::debug, 0x105aa, "player_agent::make_move_async()");
 		}
 
-		std::thread(player_agent::make_move_proc, this).detach();
+		if (_player_type == player_type::external) {
+			return;
+		}
+
+		// The previous thread has made its move.
+		join();
+		_thread = std::thread(player_agent::make_move_proc, this);
+	}
+
+
+	inline void player_agent::join() {
+		if (_thread.joinable()) {
+			_thread.join();
+		}
 	}
 
 
@@ -341,9 +354,11 @@ namespace abc { namespace samples {
 
 
 	inline move player_agent::fast_find_best_move() {
+		board game_board = _game->board();
+
 		std::lock_guard<std::mutex> lock(_vmem->mutex);
 
-		vmem_map::iterator itr = ensure_board_state_in_map(_game->board().state());
+		vmem_map::iterator itr = ensure_board_state_in_map(game_board.state());
 
 		move some_move;
 		if (itr.can_deref()) {
@@ -357,7 +372,7 @@ namespace abc { namespace samples {
 
 			for (move_t r = 0; r < row_count; r++) {
 				for (move_t c = 0; c < col_count; c++) {
-					if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none) {
+					if (game_board.get_move(move{ r, c }) == abc::samples::player_id::none) {
 						score_calc_t curr_score = itr->value[r][c];
 
 						if (curr_score == score::max) {
@@ -382,7 +397,7 @@ namespace abc { namespace samples {
 
 				for (move_t r = 0; r < row_count; r++) {
 					for (move_t c = 0; c < col_count; c++) {
-						if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none && itr->value[r][c] == score::max) {
+						if (game_board.get_move(move{ r, c }) == abc::samples::player_id::none && itr->value[r][c] == score::max) {
 							if (--rand_i == 0) {
 								return move{ r, c };
 							}
@@ -397,7 +412,7 @@ namespace abc { namespace samples {
 
 				for (move_t r = 0; r < row_count; r++) {
 					for (move_t c = 0; c < col_count; c++) {
-						if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none && itr->value[r][c] == score::min) {
+						if (game_board.get_move(move{ r, c }) == abc::samples::player_id::none && itr->value[r][c] == score::min) {
 							if (--rand_i == 0) {
 								return move{ r, c };
 							}
@@ -418,7 +433,7 @@ namespace abc { namespace samples {
 					for (move_t c = 0; c < col_count; c++) {
 						score_calc_t curr_score = itr->value[r][c];
 
-						if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none) {
+						if (game_board.get_move(move{ r, c }) == abc::samples::player_id::none) {
 							if (score::min <= curr_score && curr_score <= score::max) {
 								some_move = move{ r, c };
 								rand_sum -= curr_score;
@@ -451,18 +466,21 @@ namespace abc { namespace samples {
 
 
 	inline void player_agent::learn() {
+		move moves[game::max_move_count];
+		board game_board = _game->board(moves);
+
 		std::lock_guard<std::mutex> lock(_vmem->mutex);
 
 		board temp_board;
-		for (unsigned i = 0; i < _game->board().move_count(); i++) {
-			move mv(_game->moves()[i]);
+		for (unsigned i = 0; i < game_board.move_count(); i++) {
+			move mv(moves[i]);
 
 			if (temp_board.current_player_id() == _player_id) {
 				vmem_map::iterator itr = ensure_board_state_in_map(temp_board.state());
 
 				score_t old_score = itr->value[mv.row][mv.col] == score::none ? score::mid : itr->value[mv.row][mv.col];
 
-				if (_game->board().winner() == _player_id) {
+				if (game_board.winner() == _player_id) {
 					// Win
 					score_t new_score = old_score + score::win;
 					itr->value[mv.row][mv.col] = std::min(score::max, new_score);
@@ -472,7 +490,7 @@ namespace abc { namespace samples {
 							i, temp_board.state(), mv.row, mv.col, old_score, new_score);
 					}
 				}
-				else if (_game->board().winner() == player_id::none) {
+				else if (game_board.winner() == player_id::none) {
 					// Draw
 					score_t new_score = old_score + score::draw;
 					itr->value[mv.row][mv.col] = std::min(score::max, new_score);
@@ -531,7 +549,24 @@ namespace abc { namespace samples {
 	// --------------------------------------------------------------
 
 
+	inline game::~game() {
+		{
+			std::lock_guard<std::mutex> lock(_mutex);
+			_is_stopping = true;
+		}
+
+		_agent_x.join();
+		_agent_o.join();
+	}
+
+
 	inline void game::reset(player_type_t player_x_type, player_type_t player_o_type, log_ostream* log) {
+		// The previous game is over, but its last engine may still be learning.
+		_agent_x.join();
+		_agent_o.join();
+
+		std::lock_guard<std::mutex> lock(_mutex);
+
 		_agent_x.reset(this, player_id::x, player_x_type, log);
 		_agent_o.reset(this, player_id::o, player_o_type, log);
 		_log = log;
@@ -540,6 +575,8 @@ namespace abc { namespace samples {
 
 
 	inline void game::start() {
+		std::lock_guard<std::mutex> lock(_mutex);
+
 		if (_log != nullptr) {
 			_log->put_any(category::abc::samples, severity::optional, 0x105b4, "game::start(): player_id=%u", _board.current_player_id());
 		}
@@ -553,7 +590,13 @@ namespace abc { namespace samples {
 	}
 
 
-	inline bool game::accept_move(player_id_t player_id, const move& move) {
+	inline bool game::accept_move(player_id_t player_id, const move& move, samples::board* accepted_board) {
+		std::unique_lock<std::mutex> lock(_mutex);
+
+		if (_is_stopping) {
+			return false;
+		}
+
 		if (player_id != _board.current_player_id()) {
 			return false;
 		}
@@ -567,6 +610,10 @@ namespace abc { namespace samples {
 
 		if (accepted) {
 			_moves[_board.move_count() - 1] = move;
+
+			if (accepted_board != nullptr) {
+				*accepted_board = _board;
+			}
 		}
 
 		if (_board.is_game_over()) {
@@ -583,6 +630,9 @@ namespace abc { namespace samples {
 				}
 			}
 
+			// An engine learns on its own thread.
+			lock.unlock();
+
 			if (_agent_x.player_type() == player_type::fast_engine && _agent_o.player_type() == player_type::slow_engine) {
 				_agent_x.learn();
 			}
@@ -603,13 +653,18 @@ namespace abc { namespace samples {
 	}
 
 
-	inline const samples::board& game::board() const {
+	inline samples::board game::board() const {
+		std::lock_guard<std::mutex> lock(_mutex);
+
 		return _board;
 	}
 
 
-	inline const move* game::moves() const {
-		return _moves;
+	inline samples::board game::board(move moves[max_move_count]) const {
+		std::lock_guard<std::mutex> lock(_mutex);
+
+		std::copy(_moves, _moves + _board.move_count(), moves);
+		return _board;
 	}
 
 
@@ -770,6 +825,8 @@ namespace abc { namespace samples {
 			return false;
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		// Find a slot
 		std::size_t game_i = max_game_count;
 		if (_game_count < max_game_count) {
@@ -789,6 +846,8 @@ namespace abc { namespace samples {
 		}
 
 		if (game_i >= max_game_count) {
+			lock.unlock();
+
 			constexpr const char* no_game_capacity = "The service has a temporary game capacity shortage.";
 
 			if (base::_log != nullptr) {
@@ -814,6 +873,7 @@ namespace abc { namespace samples {
 		}
 
 		_games[game_i].reset(endpoint_game_id, player_x_type, endpoint_player_x_id, player_o_type, endpoint_player_o_id, base::_log);
+		lock.unlock();
 
 		// Write the JSON to a char buffer, so we can calculate the Content-Length before we start sending the body.
 		char body[abc::size::k1 + 1];
@@ -1033,10 +1093,15 @@ namespace abc { namespace samples {
 			return false;
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
 			if (_games[game_i].id() == endpoint_game_id) {
 				endpoint_player_id_t endpoint_player_id;
-				if (!_games[game_i].claim_player(player_i, endpoint_player_id)) {
+				bool is_claimed = _games[game_i].claim_player(player_i, endpoint_player_id);
+				lock.unlock();
+
+				if (!is_claimed) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105d7, "Security error: Player already claimed. game_id=%u, player_i=%u", (unsigned)endpoint_game_id, player_i);
 					}
@@ -1087,6 +1152,8 @@ namespace abc { namespace samples {
 			}
 		}
 
+		lock.unlock();
+
 		if (base::_log != nullptr) {
 			base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105db, "Resource error: Game not found. game_id=%u, player_i=%u", (unsigned)endpoint_game_id, player_i);
 		}
@@ -1224,11 +1291,15 @@ namespace abc { namespace samples {
 			}
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
 			if (_games[game_i].id() == endpoint_game_id) {
 				player_id_t player_id = _games[game_i].player_id(endpoint_player_id);
 
 				if (player_id == player_id::none) {
+					lock.unlock();
+
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105ec, "Resource error: Player not found. player_id=%u", (unsigned)endpoint_player_id);
 					}
@@ -1238,7 +1309,11 @@ namespace abc { namespace samples {
 					return false;
 				}
 
-				if (!_games[game_i].accept_move(player_id, mv)) {
+				samples::board board;
+				bool is_accepted = _games[game_i].accept_move(player_id, mv, &board);
+				lock.unlock();
+
+				if (!is_accepted) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105ee, "Resource error: Move not accepted. move={ %u, %u }", mv.row, mv.col);
 					}
@@ -1256,11 +1331,11 @@ namespace abc { namespace samples {
 
 				json.put_begin_object();
 					json.put_property("i");
-					json.put_number(_games[game_i].board().move_count() - 1);
+					json.put_number(board.move_count() - 1);
 
-					if (_games[game_i].board().is_game_over()) {
+					if (board.is_game_over()) {
 						json.put_property("winner");
-						json.put_number(_games[game_i].board().winner());
+						json.put_number(board.winner());
 					}
 
 				json.put_end_object();
@@ -1297,6 +1372,8 @@ namespace abc { namespace samples {
 			}
 		}
 
+		lock.unlock();
+
 		if (base::_log != nullptr) {
 			base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105f2, "Resource error: Game not found. game_id=%u", (unsigned)endpoint_game_id);
 		}
@@ -1327,8 +1404,14 @@ namespace abc { namespace samples {
 			return false;
 		}
 
+		std::unique_lock<std::mutex> lock(_mutex);
+
 		for (std::size_t game_i = 0; game_i < _game_count; game_i++) {
 			if (_games[game_i].id() == endpoint_game_id) {
+				move moves[game::max_move_count];
+				samples::board board = _games[game_i].board(moves);
+				lock.unlock();
+
 				// Write the JSON to a char buffer, so we can calculate the Content-Length before we start sending the body.
 				char body[abc::size::k1 + 1];
 				abc::buffer_streambuf sb(nullptr, 0, 0, body, 0, sizeof(body));
@@ -1338,25 +1421,25 @@ namespace abc { namespace samples {
 					json.put_property("moves");
 						json.put_begin_array();
 
-						for (std::size_t move_i = since_move_i; move_i < _games[game_i].board().move_count(); move_i++) {
+						for (std::size_t move_i = since_move_i; move_i < board.move_count(); move_i++) {
 							json.put_begin_object();
 								json.put_property("i");
 								json.put_number(move_i);
 								json.put_property("move");
 								json.put_begin_object();
 									json.put_property("row");
-									json.put_number(_games[game_i].moves()[move_i].row);
+									json.put_number(moves[move_i].row);
 									json.put_property("col");
-									json.put_number(_games[game_i].moves()[move_i].col);
+									json.put_number(moves[move_i].col);
 								json.put_end_object();
 							json.put_end_object();
 						}
 
 						json.put_end_array();
 
-					if (_games[game_i].board().is_game_over()) {
+					if (board.is_game_over()) {
 						json.put_property("winner");
-						json.put_number(_games[game_i].board().winner());
+						json.put_number(board.winner());
 					}
 
 				json.put_end_object();
@@ -1393,6 +1476,8 @@ namespace abc { namespace samples {
 			}
 		}
 
+		lock.unlock();
+
 		if (base::_log != nullptr) {
 			base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105f9, "Resource error: Game not found. game_id=%u, since_move_i=%u", (unsigned)endpoint_game_id, since_move_i);
 		}
diff --git a/samples/tictactoe/game.i.h b/samples/tictactoe/game.i.h
index 14669a4..4a4f54d 100644
--- a/samples/tictactoe/game.i.h
+++ b/samples/tictactoe/game.i.h
@@ -184,6 +184,7 @@ namespace abc { namespace samples {
 	public:
 		void				reset(game* game, player_id_t player_id, player_type_t player_type, log_ostream* log);
 		void				make_move_async();
+		void				join();
 		void				learn();
 		player_type_t		player_type() const;
 
@@ -208,6 +209,7 @@ namespace abc { namespace samples {
 		player_type_t		_player_type	= player_type::none;
 		board				_temp_board;
 		log_ostream*		_log			= nullptr;
+		std::thread			_thread;
 
 	public:
 		static vmem_bundle*	_vmem;
@@ -221,14 +223,17 @@ namespace abc { namespace samples {
 	public:
 		static constexpr std::size_t max_move_count = row_count * col_count;
 
+	public:
+		~game();
+
 	public:
 		void					reset(player_type_t player_x_type, player_type_t player_o_type, log_ostream* log);
 		void					start();
-		bool					accept_move(player_id_t player_id, const move& move);
+		bool					accept_move(player_id_t player_id, const move& move, samples::board* accepted_board = nullptr);
 
 	public:
-		const samples::board&	board() const;
-		const move*				moves() const;
+		samples::board			board() const;
+		samples::board			board(move moves[max_move_count]) const;
 
 	private:
 		samples::board			_board;
@@ -237,6 +242,9 @@ namespace abc { namespace samples {
 		log_ostream*			_log			= nullptr;
 
 		move					_moves[max_move_count];
+
+		mutable std::mutex		_mutex;
+		bool					_is_stopping	= false;
 	};
 
 
@@ -310,6 +318,7 @@ namespace abc { namespace samples {
 		bool			verify_header_json(abc::http_server_stream<Log>& http);
 
 	private:
+		std::mutex				_mutex;
 		std::size_t				_game_count 		= 0;
 		endpoint_game			_games[max_game_count];
 	};
-- 
2.43.0


From ba223a01f04f34c0057d6e6be6c4a07d0cee6bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 088/104] fix: an endpoint sent no simple response when the
 request handler failed to read the rest of the request

---
 src/endpoint.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 230b811..610a628 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -191,7 +191,6 @@ namespace abc {
 
 		// A request line that is broken, too long, or cut off must not be taken for another request.
 		if (!request.good()) {
-			request.reset();
 			send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request could not be read.", 0x107ba);
 		}
 
@@ -348,6 +347,12 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102ec, "Sending simple response");
 		}
 
+		// The request and the response share the state of the stream. A request that couldn't be read doesn't prevent the response.
+		abc::http_request_istream<Log>& request = http;
+		if (!request.good()) {
+			request.reset();
+		}
+
 		char content_length[Limits::fsize_size + 1];
 		std::snprintf(content_length, Limits::fsize_size, "%zu", std::strlen(body));
 
-- 
2.43.0


From 11da99150a4e20e5e12cc1fdd190d154f7c320d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 089/104] fix: a request with broken headers got no response
 from the sample services

---
 samples/basic/equations.h | 6 ++++++
 samples/connect4/game.h   | 7 +++++++
 samples/tictactoe/game.h  | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index a83fa70..01e8bd9 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -124,6 +124,12 @@ namespace abc { namespace samples {
 			}
 		}
 
+		// If the headers couldn't be read, return 400.
+		if (!static_cast<abc::http_request_istream<Log>&>(http).good()) {
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers could not be read.", 0x1083f);
+			return;
+		}
+
 		// Here's where we store the parsed JSON input.
 		bool has_a = false;
 		double a[2][2];
diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index a978a09..eef45c0 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1796,6 +1796,13 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!static_cast<abc::http_request_istream<Log>&>(http).good()) {
+			// The headers couldn't be read.
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers could not be read.", 0x10841);
+			return false;
+		}
+
 		if (!has_content_type_json) {
 			// The Content-Type is missing.
 			// 400
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index e891856..f07af60 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1581,6 +1581,13 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!static_cast<abc::http_request_istream<Log>&>(http).good()) {
+			// The headers couldn't be read.
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers could not be read.", 0x10840);
+			return false;
+		}
+
 		if (!has_content_type_json) {
 			// The Content-Type is missing.
 			// 400
-- 
2.43.0


From 205dd4efda6465e4262115d3ad5d549704db74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 090/104] fix: a request without a Content-Type or with broken
 headers got no response from the car service

---
 samples/picar_4wd/car.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index e2ee38c..4028be6 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -692,7 +692,21 @@ namespace abc { namespace samples {
 			}
 		}
 
-		return has_content_type_json;
+		if (!static_cast<abc::http_request_istream<Log>&>(http).good()) {
+			// The headers couldn't be read.
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers could not be read.", 0x10842);
+			return false;
+		}
+
+		if (!has_content_type_json) {
+			// The Content-Type is missing.
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The Content-Type header was not supplied.", 0x10843);
+			return false;
+		}
+
+		return true;
 	}
 
 
-- 
2.43.0


From 6bdee9d3e3847e06d9dc3eac85f9bf8f41be448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 091/104] fix: a fractional power, turn, or angle was accepted
 by the car service

---
 samples/picar_4wd/car.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 4028be6..f0dedeb 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -226,7 +226,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(-100 <= token->value.number && token->value.number <= 100)) {
+			if (token->item != abc::json::item::number || !(-100 <= token->value.number && token->value.number <= 100) || token->value.number != static_cast<std::int32_t>(token->value.number)) {
 				// Not a valid power.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1067f, "Content error: Expected -100 <= number <= 100.");
@@ -330,7 +330,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(-90 <= token->value.number && token->value.number <= 90)) {
+			if (token->item != abc::json::item::number || !(-90 <= token->value.number && token->value.number <= 90) || token->value.number != static_cast<std::int32_t>(token->value.number)) {
 				// Not a valid turn.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10686, "Content error: Expected -90 <= number <= 90.");
@@ -475,7 +475,7 @@ namespace abc { namespace samples {
 			}
 
 			json.get_token(token, sizeof(buffer));
-			if (token->item != abc::json::item::number || !(-90 <= token->value.number && token->value.number <= 90)) {
+			if (token->item != abc::json::item::number || !(-90 <= token->value.number && token->value.number <= 90) || token->value.number != static_cast<std::int32_t>(token->value.number)) {
 				// Not a valid angle.
 				if (base::_log != nullptr) {
 					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1068f, "Content error: Expected -90 <= number <= 90.");
-- 
2.43.0


From ba86792356b1585c8e65ab1bc7e914bc6ab73868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 092/104] fix: a truncated body was accepted by the car service

---
 samples/picar_4wd/car.h | 54 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index f0dedeb..8de7ebc 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -238,6 +238,24 @@ namespace abc { namespace samples {
 			}
 
 			power = token->value.number;
+
+			// Future-proof: Ignore unknown properties.
+			json.get_token(token, sizeof(buffer));
+			while (token->item == abc::json::item::property) {
+				json.skip_value();
+				json.get_token(token, sizeof(buffer));
+			}
+
+			if (token->item != abc::json::item::end_object) {
+				// Not }.
+				if (base::_log != nullptr) {
+					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10844, "Content error: Expected '}'.");
+				}
+
+				// 400
+				base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, 0x10845);
+				return;
+			}
 		}
 
 		if (!verify_range(http, power, -100, 100, 25)) {
@@ -342,6 +360,24 @@ namespace abc { namespace samples {
 			}
 
 			turn = token->value.number;
+
+			// Future-proof: Ignore unknown properties.
+			json.get_token(token, sizeof(buffer));
+			while (token->item == abc::json::item::property) {
+				json.skip_value();
+				json.get_token(token, sizeof(buffer));
+			}
+
+			if (token->item != abc::json::item::end_object) {
+				// Not }.
+				if (base::_log != nullptr) {
+					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10846, "Content error: Expected '}'.");
+				}
+
+				// 400
+				base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, 0x10847);
+				return;
+			}
 		}
 
 		if (!verify_range(http, turn, -90, 90, 30)) {
@@ -487,6 +523,24 @@ namespace abc { namespace samples {
 			}
 
 			angle = token->value.number;
+
+			// Future-proof: Ignore unknown properties.
+			json.get_token(token, sizeof(buffer));
+			while (token->item == abc::json::item::property) {
+				json.skip_value();
+				json.get_token(token, sizeof(buffer));
+			}
+
+			if (token->item != abc::json::item::end_object) {
+				// Not }.
+				if (base::_log != nullptr) {
+					base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x10848, "Content error: Expected '}'.");
+				}
+
+				// 400
+				base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, 0x10849);
+				return;
+			}
 		}
 
 		if (!verify_range(http, angle, -90, 90, 30)) {
-- 
2.43.0


From ddc8ab62a3b25a2ec967978b160830eb5ae0ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 093/104] fix: the car service reversed the direction of wheels
 that were driven

---
 samples/picar_4wd/car.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 8de7ebc..823b206 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -263,7 +263,8 @@ namespace abc { namespace samples {
 		}
 
 		// If changing direction, stop the vehicle and reset the motion tracker.
-		if (power * _power < 0) {
+		// Note: _power is a magnitude.
+		if ((power >= 0) != _forward) {
 			std::int32_t turn = _turn;
 
 			_power = 0;
-- 
2.43.0


From 20062d018392575d96fd1733317d780b5284238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 094/104] fix: the car service kept driving into an obstacle
 while turning

---
 samples/picar_4wd/car.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 823b206..3df63ce 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -845,6 +845,10 @@ namespace abc { namespace samples {
 			}
 
 			_power = power;
+			if (_power == 0) {
+				// A turn would keep wheels of one side driven.
+				_turn = 0;
+			}
 			drive_verified();
 		}
 	}
-- 
2.43.0


From 4b2e90453a27e3519526f14ce96b25e49f71c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 095/104] fix: the car service reported uninitialized grayscale
 values

---
 samples/picar_4wd/car.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 3df63ce..79530d7 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -137,6 +137,9 @@ namespace abc { namespace samples {
 		, _power(0)
 		, _turn(0)
 		, _obstacle_cm(ultrasonic_max_cm)
+		, _grayscale_left(0)
+		, _grayscale_center(0)
+		, _grayscale_right(0)
 
 		, _auto_thread(start_auto_loop, this) {
 
-- 
2.43.0


From 526e07035fa45f6a9ea7d85bc5ed37e4db91ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 096/104] fix: the wheels of the car service were driven by
 several threads at the same time

---
 samples/picar_4wd/car.h   | 77 +++++++++++++++++++++++----------------
 samples/picar_4wd/car.i.h |  2 +
 2 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 79530d7..cc6418a 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -265,45 +265,50 @@ namespace abc { namespace samples {
 			return;
 		}
 
-		// If changing direction, stop the vehicle and reset the motion tracker.
-		// Note: _power is a magnitude.
-		if ((power >= 0) != _forward) {
-			std::int32_t turn = _turn;
+		char body[abc::size::_256 + 1];
+		{
+			std::lock_guard<std::mutex> lock(_drive_mutex);
 
-			_power = 0;
-			_turn = 0;
-			drive_verified();
+			// If changing direction, stop the vehicle and reset the motion tracker.
+			// Note: _power is a magnitude.
+			if ((power >= 0) != _forward) {
+				std::int32_t turn = _turn;
 
-			_motion_tracker.stop();
+				_power = 0;
+				_turn = 0;
+				drive_verified();
 
-			_turn = turn;
-		}
+				_motion_tracker.stop();
 
-		if (power != 0 && !_motion_tracker.is_running()) {
-			_motion_tracker.start();
-		}
+				_turn = turn;
+			}
 
-		_forward = true;
-		if (power == 0) {
-			_turn = 0;
-		}
+			if (power != 0 && !_motion_tracker.is_running()) {
+				_motion_tracker.start();
+			}
 
-		if (power < 0) {
-			_forward = false;
-			power = -power;
-		}
+			_forward = true;
+			if (power == 0) {
+				_turn = 0;
+			}
 
-		_power = power;
-		drive_verified();
+			if (power < 0) {
+				_forward = false;
+				power = -power;
+			}
 
-		// If vehicle stopped, reset the motion tracker.
-		if (_power == 0) {
-			_motion_tracker.stop();
+			_power = power;
+			drive_verified();
+
+			// If vehicle stopped, reset the motion tracker.
+			if (_power == 0) {
+				_motion_tracker.stop();
+			}
+
+			std::snprintf(body, sizeof(body), "power: forward=%d, power=%d, turn=%d", (int)_forward, (int)_power, (int)_turn);
 		}
 
 		// 200
-		char body[abc::size::_256 + 1];
-		std::snprintf(body, sizeof(body), "power: forward=%d, power=%d, turn=%d", (int)_forward, (int)_power, (int)_turn);
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, body, 0x10681);
 	}
 
@@ -388,12 +393,17 @@ namespace abc { namespace samples {
 			return;
 		}
 
-		_turn = turn;
-		drive_verified();
+		char body[abc::size::_256 + 1];
+		{
+			std::lock_guard<std::mutex> lock(_drive_mutex);
+
+			_turn = turn;
+			drive_verified();
+
+			std::snprintf(body, sizeof(body), "turn: power=%d, turn=%d", (int)_power, (int)_turn);
+		}
 
 		// 200
-		char body[abc::size::_256 + 1];
-		std::snprintf(body, sizeof(body), "turn: power=%d, turn=%d", (int)_power, (int)_turn);
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, body, 0x10688);
 	}
 
@@ -825,6 +835,9 @@ namespace abc { namespace samples {
 	template <typename Limits, typename Log>
 	inline void car_endpoint<Limits, Log>::auto_limit_power() noexcept {
 		std::size_t distance_cm = _obstacle_cm.load();
+
+		std::lock_guard<std::mutex> lock(_drive_mutex);
+
 		std::int32_t power = _power;
 
 		if (_forward) {
diff --git a/samples/picar_4wd/car.i.h b/samples/picar_4wd/car.i.h
index 8babbca..c13bbfb 100644
--- a/samples/picar_4wd/car.i.h
+++ b/samples/picar_4wd/car.i.h
@@ -31,6 +31,7 @@ SOFTWARE.
 #include <ratio>
 #include <thread>
 #include <atomic>
+#include <mutex>
 
 #include "../../src/log.h"
 #include "../../src/endpoint.h"
@@ -116,6 +117,7 @@ namespace abc { namespace samples {
 		abc::gpio_smbus_motion<Log>								_motion;
 		abc::gpio_smbus_motion_tracker<std::centi, Log>			_motion_tracker;
 
+		std::mutex												_drive_mutex; // guards the wheels as well as _forward, _power, and _turn
 		bool													_forward;
 		std::int32_t											_power;
 		std::int32_t											_turn;
-- 
2.43.0


From f57bcc1432709181dd318330ecc31d9586165004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 097/104] fix: the car service could drive the wheels after a
 shutdown, and failed a repeated shutdown

---
 samples/picar_4wd/car.h   | 38 ++++++++++++++++++++++++++++++++++----
 samples/picar_4wd/car.i.h |  1 +
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index cc6418a..98abcd2 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -267,7 +267,15 @@ namespace abc { namespace samples {
 
 		char body[abc::size::_256 + 1];
 		{
-			std::lock_guard<std::mutex> lock(_drive_mutex);
+			std::unique_lock<std::mutex> lock(_drive_mutex);
+
+			if (base::is_shutdown_requested()) {
+				lock.unlock();
+
+				// 503
+				base::send_simple_response(http, status_code::Service_Unavailable, reason_phrase::Service_Unavailable, content_type::text, "Server is shuting down...", 0x1084a);
+				return;
+			}
 
 			// If changing direction, stop the vehicle and reset the motion tracker.
 			// Note: _power is a magnitude.
@@ -395,7 +403,15 @@ namespace abc { namespace samples {
 
 		char body[abc::size::_256 + 1];
 		{
-			std::lock_guard<std::mutex> lock(_drive_mutex);
+			std::unique_lock<std::mutex> lock(_drive_mutex);
+
+			if (base::is_shutdown_requested()) {
+				lock.unlock();
+
+				// 503
+				base::send_simple_response(http, status_code::Service_Unavailable, reason_phrase::Service_Unavailable, content_type::text, "Server is shuting down...", 0x1084b);
+				return;
+			}
 
 			_turn = turn;
 			drive_verified();
@@ -578,8 +594,22 @@ namespace abc { namespace samples {
 		}
 
 		base::set_shutdown_requested();
-		_hat.reset();
-		_auto_thread.join();
+
+		// There may be other shutdown requests.
+		{
+			std::lock_guard<std::mutex> lock(_auto_mutex);
+
+			if (_auto_thread.joinable()) {
+				_auto_thread.join();
+			}
+		}
+
+		// Nothing drives the wheels from here on.
+		{
+			std::lock_guard<std::mutex> lock(_drive_mutex);
+
+			_hat.reset();
+		}
 
 		// 200
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, "Server is shuting down...", 0x10692);
diff --git a/samples/picar_4wd/car.i.h b/samples/picar_4wd/car.i.h
index c13bbfb..8cb82b7 100644
--- a/samples/picar_4wd/car.i.h
+++ b/samples/picar_4wd/car.i.h
@@ -126,6 +126,7 @@ namespace abc { namespace samples {
 		std::atomic<std::uint16_t>								_grayscale_center;
 		std::atomic<std::uint16_t>								_grayscale_right;
 
+		std::mutex												_auto_mutex; // guards joining _auto_thread
 		std::thread												_auto_thread;
 	};
 
-- 
2.43.0


From 4cc8693e476dc08d4fa89715652cfb2943086177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:24 +0000
Subject: [PATCH 098/104] fix: a pool with a log that was closed before any
 page was mapped divided by zero

---
 src/x/vmem_pool.x.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index bd9edf5..94ada44 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -884,11 +884,11 @@ namespace abc {
 	inline void vmem_pool<MaxMappedPages, Log>::log_totals() noexcept {
 		if (_log != nullptr) {
 			vmem_page_hit_count_t total_lock_count = _mapped_page_totals.hit_count + _mapped_page_totals.miss_count;
-			vmem_page_hit_count_t hit_percent = (_mapped_page_totals.hit_count * 100) / total_lock_count;
-			vmem_page_hit_count_t miss_percent = (_mapped_page_totals.miss_count * 100) / total_lock_count;
+			vmem_page_hit_count_t hit_percent = total_lock_count != 0 ? (_mapped_page_totals.hit_count * 100) / total_lock_count : 0;
+			vmem_page_hit_count_t miss_percent = total_lock_count != 0 ? (_mapped_page_totals.miss_count * 100) / total_lock_count : 0;
 
 			vmem_page_hit_count_t total_lookup_count = _mapped_page_totals.hit_count + _mapped_page_totals.miss_count + _mapped_page_totals.unlock_count;
-			vmem_page_hit_count_t check_factor_x10 = (_mapped_page_totals.check_count * 10) / total_lookup_count;
+			vmem_page_hit_count_t check_factor_x10 = total_lookup_count != 0 ? (_mapped_page_totals.check_count * 10) / total_lookup_count : 0;
 			vmem_page_hit_count_t check_factor_percent = (check_factor_x10 * 10) / MaxMappedPages;
 
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x103ae, "vmem_pool::log_totals() Pool Totals hits=%u (%u%%), misses=%u (%u%%), checks=%u (%u.%u, %u%%)", 
-- 
2.43.0


From 8b6768325ecadde9ac1de17ad5e6902466ca2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 099/104] fix: logging the signature of a file that is not a
 pool read beyond its page

---
 src/x/vmem_pool.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 94ada44..a8977dc 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -277,8 +277,8 @@ namespace abc {
 		vmem_root_page* root_page = reinterpret_cast<vmem_root_page*>(page.ptr());
 
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10389, "vmem_pool::verify_root_page_or_throw() Root page integrity pos=0x%llx, ptr=%p, version=%u, signature='%s', page_size=%u",
-				(long long)page.pos(), page.ptr(), root_page->version, root_page->signature, root_page->page_size);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10389, "vmem_pool::verify_root_page_or_throw() Root page integrity pos=0x%llx, ptr=%p, version=%u, signature='%.*s', page_size=%u",
+				(long long)page.pos(), page.ptr(), root_page->version, (int)sizeof(root_page->signature), root_page->signature, root_page->page_size);
 		}
 
 		vmem_root_page init;
-- 
2.43.0


From 0bd80a59ea2143cb510fb8cb6ae2fa2fd0e1bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 100/104] fix: logging the chars written as JSON read beyond
 the given size

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 7aad9b3..53e8887 100644
--- a/src/json.h
+++ b/src/json.h
@@ -1041,7 +1041,7 @@ namespace abc {
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%s' >>>", buffer);
+			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%.*s' >>>", (int)size, buffer);
 		}
 
 		std::size_t pcount = 0;
-- 
2.43.0


From e45167d7533e5a9a4f498627bd17f0fd7bfa6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 101/104] fix: logging the parts of an http message read beyond
 the given size

---
 src/http.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/http.h b/src/http.h
index 359514b..b093a5b 100644
--- a/src/http.h
+++ b/src/http.h
@@ -274,7 +274,7 @@ namespace abc {
 		set_gstate(gcount, http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%.*s', gcount=%zu", (int)gcount, buffer, gcount);
 		}
 	}
 
@@ -498,7 +498,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%.*s', size=%zu, gcount=%zu", (int)size, buffer, size, gcount);
 		}
 
 		return gcount;
@@ -534,7 +534,7 @@ namespace abc {
 		set_pstate(http::item::header_value);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -578,7 +578,7 @@ namespace abc {
 		set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -620,7 +620,7 @@ namespace abc {
 		set_pstate(http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -915,7 +915,7 @@ namespace abc {
 		base::set_pstate(http::item::resource);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -943,7 +943,7 @@ namespace abc {
 		base::set_pstate(http::item::protocol);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -1092,7 +1092,7 @@ namespace abc {
 		base::set_pstate(http::item::reason_phrase);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -1121,7 +1121,7 @@ namespace abc {
 		base::set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%.*s', size=%zu, pcount=%zu", buffer != nullptr ? (int)size : -1, buffer != nullptr ? buffer : "<nullptr>", size, pcount);
 		}
 	}
 
-- 
2.43.0


From a9cf3cccf42943066cfcdebc76c7acd20608d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:08 +0000
Subject: [PATCH 102/104] fix: a test that threw something other than
 std::exception ended the whole test suite

---
 src/test.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/test.h b/src/test.h
index 3f3c419..e670c5b 100644
--- a/src/test.h
+++ b/src/test.h
@@ -334,6 +334,12 @@ namespace abc {
 						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s %s", color::begin, color::red, color::end, ex.what());
 					}
 				}
+				catch(...) {
+					method_passed = false;
+					if (log != nullptr) {
+						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s", color::begin, color::red, color::end);
+					}
+				}
 
 				if (method_passed) {
 					if (log != nullptr) {
-- 
2.43.0


From 0af886f10d277a82fb0f2c5f6db8582461852c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:25 +0000
Subject: [PATCH 103/104] fix: a test run with a random seed could report a
 seed that doesn't repeat it

---
 src/test.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/test.h b/src/test.h
index e670c5b..6ac5d68 100644
--- a/src/test.h
+++ b/src/test.h
@@ -404,7 +404,9 @@ namespace abc {
 	inline void test_suite<Log>::srand() noexcept {
 		if (seed == seed::random) {
 			std::srand(static_cast<seed_t>(std::chrono::system_clock::now().time_since_epoch().count() % RAND_MAX));
-			seed = std::rand();
+			do {
+				seed = std::rand();
+			} while (seed == seed::random);
 		}
 
 		std::srand(seed);
-- 
2.43.0


From e978c66327a62cd86ce1c59116065216cf8b0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:42 +0000
Subject: [PATCH 104/104] fix: comparing blobs in a test did not log their last
 16 bytes

---
 src/test.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/test.h b/src/test.h
index 6ac5d68..4da935d 100644
--- a/src/test.h
+++ b/src/test.h
@@ -246,13 +246,11 @@ namespace abc {
 		bool are_equal = std::memcmp(actual, expected, size) == 0;
 
 		std::size_t offset = 0;
-		for (;;) {
+		for (bool has_more = true; has_more; ) {
 			std::size_t original_offset = offset;
 
 			line_ostream<size::k2> line_actual;
-			if (line_actual.put_binary(actual, size, offset) == 0) {
-				break;
-			};
+			has_more = line_actual.put_binary(actual, size, offset);
 
 			line_ostream<size::k2> line_expected;
 			line_expected.put_binary(expected, size, original_offset);
-- 
2.43.0

