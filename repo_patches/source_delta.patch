From c335a54c22568a11b2db88213954648955ad7a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 01/87] fix: json_istream: end on unterminated input; keep
 strings and numbers within their buffers

---
 src/json.h | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/json.h b/src/json.h
index 102102c..e36fb31 100644
--- a/src/json.h
+++ b/src/json.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cstddef>
 #include <cstdlib>
 #include <cstdio>
 
@@ -185,7 +186,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (base::is_good() && state::levels() > base_levels);
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
@@ -213,7 +214,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +285,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
@@ -387,9 +388,21 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						if (gcount + 1 >= size) {
+							base::set_fail();
+							break;
+						}
+
 						buffer[gcount++] = ech;
 					}
 				}
+				else {
+					base::set_bad();
+				}
+
+				if (!base::is_good()) {
+					break;
+				}
 			}
 		}
 
@@ -415,27 +428,36 @@ namespace abc {
 		std::size_t gcount = 0;
 		char digits[19 + 6 + 1];
 
+		auto get_one = [this, &digits, &gcount]() {
+			if (gcount + 1 < sizeof(digits)) {
+				digits[gcount++] = base::get();
+			}
+			else {
+				base::set_fail();
+			}
+		};
+
 		char ch = peek_char();
 		if (ch == '+' || ch == '-') {
-			digits[gcount++] = base::get();
+			get_one();
 		}
 
 		gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
 
 		ch = peek_char();
 		if (ch == '.') {
-			digits[gcount++] = base::get();
+			get_one();
 
 			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
 		}
 
 		ch = peek_char();
 		if (ch == 'e' || ch == 'E') {
-			digits[gcount++] = base::get();
+			get_one();
 
 			ch = peek_char();
 			if (ch == '+' || ch == '-') {
-				digits[gcount++] = base::get();
+				get_one();
 			}
 
 			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
-- 
2.43.0


From c16582fd7a3ca1b176867330f6b2dc348e261498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 02/87] fix: json_istream: refuse invalid escapes, read exactly
 four hex digits, accept a number that ends the input

---
 src/json.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index e36fb31..af910ba 100644
--- a/src/json.h
+++ b/src/json.h
@@ -562,6 +562,10 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
@@ -593,7 +597,15 @@ namespace abc {
 
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_istream<MaxLevels, Log>::get_hex(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_hex, buffer, size);
+		std::size_t gcount = 0;
+
+		while (gcount < size - 1 && base::is_good() && ascii::is_hex(peek_char())) {
+			buffer[gcount++] = base::get();
+		}
+
+		buffer[gcount] = '\0';
+
+		return gcount;
 	}
 
 
@@ -654,6 +666,10 @@ namespace abc {
 
 	template <std::size_t MaxLevels, typename Log>
 	inline char json_istream<MaxLevels, Log>::peek_char() {
+		if (!base::is_good()) {
+			return '\0';
+		}
+
 		char ch = base::peek();
 
 		if (!ascii::json::is_valid(ch)) {
-- 
2.43.0


From 241125227897a74bf60fa1de09b09b2cb0924951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 03/87] fix: json_ostream: escape strings and refuse non-finite
 numbers

---
 src/i/json.i.h | 918 +++++++++++++++++++++++++------------------------
 src/json.h     |  35 +-
 2 files changed, 496 insertions(+), 457 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..6be21e6 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -1,455 +1,463 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <cstddef>
-#include <streambuf>
-#include <istream>
-#include <ostream>
-#include <bitset>
-
-#include "stream.i.h"
-#include "log.i.h"
-
-
-namespace abc {
-
-	namespace json {
-		using item_t = std::uint16_t;
-
-		namespace item {
-			constexpr item_t none			= 0x0000;
-
-			constexpr item_t null			= 0x0001;
-			constexpr item_t boolean		= 0x0002;
-			constexpr item_t number			= 0x0004;
-			constexpr item_t string			= 0x0008;
-			constexpr item_t begin_array	= 0x0010;
-			constexpr item_t end_array		= 0x0020;
-			constexpr item_t begin_object	= 0x0040;
-			constexpr item_t end_object		= 0x0080;
-			constexpr item_t property		= 0x0100;
-		}
-
-
-		/**
-		 * @brief			JSON value union.
-		 */
-		union value_t {
-			bool	boolean;
-			double	number;
-			char	string[1];
-			char	property[1];
-		};
-		
-		/**
-		 * @brief			JSON token.
-		 */
-		struct token_t {
-			item_t	item;
-			value_t	value;
-		};
-
-
-		using level_t = bool;
-
-		namespace level {
-			constexpr level_t	array	= false;
-			constexpr level_t	object	= true;
-		}
-	}
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. State keeper.
-	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels, typename Log>
-	class json_state {
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_state(Log* log);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_state(json_state&& other) = default;
-
-		/**
-		 * @brief			Copy constructor.
-		 */
-		json_state(const json_state& other) = default;
-
-	public:
-		/**
-		 * @brief			Returns the current number of nesting levels.
-		 */
-		std::size_t levels() const noexcept;
-
-		/**
-		 * @brief			Returns the current nesting level - object or array.
-		 */
-		json::level_t top_level() const noexcept;
-
-	protected:
-		/**
-		 * @brief			Resets the state.
-		 */
-		void reset() noexcept;
-
-		/**
-		 * @brief			Returns whether a property name is expected.
-		 */
-		bool expect_property() const noexcept;
-
-		/**
-		 * @brief			Sets whether a property name is expected.
-		 */
-		void set_expect_property(bool expect) noexcept;
-
-		/**
-		 * @brief			Pushes a nesting level into the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error. 
-		 */
-		bool push_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error.
-		 */
-		bool pop_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Returns the Log pointer.
-		 */
-		Log* log() const noexcept;
-
-	private:
-		/**
-		 * @brief			Flag whether a property name is expected.
-		 */
-		bool _expect_property;
-
-		/**
-		 * @brief			Current top position on the stack.
-		 */
-		std::size_t _level_top;
-
-		/**
-		 * @brief			Nesting level stack.
-		 */
-		std::bitset<MaxLevels> _level_stack;
-
-		/**
-		 * @brief			The log passed in to the constructor.
-		 */
-		Log* _log;
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON input stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_istream : public istream, public json_state<MaxLevels, Log> {
-		using base  = istream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_istream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_istream(json_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_istream(const json_istream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a JSON value from the stream.
-		 * @return			The type of value skipped.
-		 */
-		json::item_t skip_value();
-
-	protected:
-		/**
-		 * @brief			Gets or skips a JSON token from the stream.
-		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
-		 * @param size		Buffer size.
-		 * @return			The type of token.
-		 */
-		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Gets or skips a JSON number from the stream.
-		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
-		 */
-		void get_or_skip_number(double* buffer);
-
-		/**
-		 * @brief			Gets or skips a JSON string from the stream.
-		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the string.
-		 */
-		std::size_t get_or_skip_string(char* buffer, std::size_t size);
-
-	protected:
-		/**
-		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
-		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
-		 * @param literal	Sequence of chars.
-		 */
-		void get_literal(const char* literal);
-
-		/**
-		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
-		 * @return			The char.
-		 */
-		char get_escaped_char();
-
-		/**
-		 * @brief			Gets or skips the inner part of a string.
-		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the content read. 
-		 */
-		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_hex(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a decimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_digits(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of spaces from the stream.
-		 * @return			Number of chars skipped.
-		 */
-		std::size_t skip_spaces();
-
-		/**
-		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
-		 * @param predicate	Predicate.
-		 * @param buffer	Buffer
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of chars that match a predicate.
-		 * @param predicate	Predicate.
-		 * @return			Number of chars read.
-		 */
-		std::size_t skip_chars(CharPredicate&& predicate);
-
-		/**
-		 * @brief			Reads a char from the stream.
-		 * @return			The char read.
-		 */
-		char get_char();
-
-		/**
-		 * @brief			Returns the next char from the stream without advancing.
-		 */
-		char peek_char();
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON output stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
-		using base  = ostream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_ostream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_ostream(json_ostream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_ostream(const json_ostream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Writes a JSON token to the stream from the buffer.
-		 * @param buffer	Buffer.
-		 * @param size		Content size.
-		 */
-		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a space to the stream.
-		 */
-		void put_space();
-
-		/**
-		 * @brief			Writes a tab to the stream.
-		 */
-		void put_tab();
-
-		/**
-		 * @brief			Writes a CR to the stream.
-		 */
-		void put_cr();
-
-		/**
-		 * @brief			Writes a LF to the stream.
-		 */
-		void put_lf();
-
-		/**
-		 * @brief			Writes `null` to the stream.
-		 */
-		void put_null();
-
-		/**
-		 * @brief			Writes a boolean value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_boolean(bool value);
-
-		/**
-		 * @brief			Writes a number value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_number(double value);
-
-		/**
-		 * @brief			Writes a string value to the stream.
-		 * @param buffer	The string to write.
-		 * @param size		String length.
-		 */
-		void put_string(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a property name to the stream.
-		 * @param buffer	The property name to write.
-		 * @param size		Property name length.
-		 */
-		void put_property(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes `[` to the stream.
-		 */
-		void put_begin_array();
-
-		/**
-		 * @brief			Writes `]` to the stream.
-		 */
-		void put_end_array();
-
-		/**
-		 * @brief			Writes `{` to the stream.
-		 */
-		void put_begin_object();
-
-		/**
-		 * @brief			Writes `}` to the stream.
-		 */
-		void put_end_object();
-
-	public:
-		/**
-		 * @brief			Writes a sequence of chars to the stream.
-		 * @param buffer	The sequence to write.
-		 * @param size		Sequence length.
-		 */
-		std::size_t put_chars(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a char to the stream.
-		 * @param ch		Char to write.
-		 * @return			1 = success. 0 = error.
-		 */
-		std::size_t put_char(char ch);
-
-	private:
-		/**
-		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
-		 */
-		bool _skip_comma;
-	};
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <cstddef>
+#include <streambuf>
+#include <istream>
+#include <ostream>
+#include <bitset>
+
+#include "stream.i.h"
+#include "log.i.h"
+
+
+namespace abc {
+
+	namespace json {
+		using item_t = std::uint16_t;
+
+		namespace item {
+			constexpr item_t none			= 0x0000;
+
+			constexpr item_t null			= 0x0001;
+			constexpr item_t boolean		= 0x0002;
+			constexpr item_t number			= 0x0004;
+			constexpr item_t string			= 0x0008;
+			constexpr item_t begin_array	= 0x0010;
+			constexpr item_t end_array		= 0x0020;
+			constexpr item_t begin_object	= 0x0040;
+			constexpr item_t end_object		= 0x0080;
+			constexpr item_t property		= 0x0100;
+		}
+
+
+		/**
+		 * @brief			JSON value union.
+		 */
+		union value_t {
+			bool	boolean;
+			double	number;
+			char	string[1];
+			char	property[1];
+		};
+		
+		/**
+		 * @brief			JSON token.
+		 */
+		struct token_t {
+			item_t	item;
+			value_t	value;
+		};
+
+
+		using level_t = bool;
+
+		namespace level {
+			constexpr level_t	array	= false;
+			constexpr level_t	object	= true;
+		}
+	}
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. State keeper.
+	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels, typename Log>
+	class json_state {
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_state(Log* log);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_state(json_state&& other) = default;
+
+		/**
+		 * @brief			Copy constructor.
+		 */
+		json_state(const json_state& other) = default;
+
+	public:
+		/**
+		 * @brief			Returns the current number of nesting levels.
+		 */
+		std::size_t levels() const noexcept;
+
+		/**
+		 * @brief			Returns the current nesting level - object or array.
+		 */
+		json::level_t top_level() const noexcept;
+
+	protected:
+		/**
+		 * @brief			Resets the state.
+		 */
+		void reset() noexcept;
+
+		/**
+		 * @brief			Returns whether a property name is expected.
+		 */
+		bool expect_property() const noexcept;
+
+		/**
+		 * @brief			Sets whether a property name is expected.
+		 */
+		void set_expect_property(bool expect) noexcept;
+
+		/**
+		 * @brief			Pushes a nesting level into the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error. 
+		 */
+		bool push_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error.
+		 */
+		bool pop_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Returns the Log pointer.
+		 */
+		Log* log() const noexcept;
+
+	private:
+		/**
+		 * @brief			Flag whether a property name is expected.
+		 */
+		bool _expect_property;
+
+		/**
+		 * @brief			Current top position on the stack.
+		 */
+		std::size_t _level_top;
+
+		/**
+		 * @brief			Nesting level stack.
+		 */
+		std::bitset<MaxLevels> _level_stack;
+
+		/**
+		 * @brief			The log passed in to the constructor.
+		 */
+		Log* _log;
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON input stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_istream : public istream, public json_state<MaxLevels, Log> {
+		using base  = istream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_istream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_istream(json_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_istream(const json_istream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a JSON value from the stream.
+		 * @return			The type of value skipped.
+		 */
+		json::item_t skip_value();
+
+	protected:
+		/**
+		 * @brief			Gets or skips a JSON token from the stream.
+		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
+		 * @param size		Buffer size.
+		 * @return			The type of token.
+		 */
+		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Gets or skips a JSON number from the stream.
+		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
+		 */
+		void get_or_skip_number(double* buffer);
+
+		/**
+		 * @brief			Gets or skips a JSON string from the stream.
+		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the string.
+		 */
+		std::size_t get_or_skip_string(char* buffer, std::size_t size);
+
+	protected:
+		/**
+		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
+		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
+		 * @param literal	Sequence of chars.
+		 */
+		void get_literal(const char* literal);
+
+		/**
+		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
+		 * @return			The char.
+		 */
+		char get_escaped_char();
+
+		/**
+		 * @brief			Gets or skips the inner part of a string.
+		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the content read. 
+		 */
+		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_hex(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a decimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_digits(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of spaces from the stream.
+		 * @return			Number of chars skipped.
+		 */
+		std::size_t skip_spaces();
+
+		/**
+		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
+		 * @param predicate	Predicate.
+		 * @param buffer	Buffer
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of chars that match a predicate.
+		 * @param predicate	Predicate.
+		 * @return			Number of chars read.
+		 */
+		std::size_t skip_chars(CharPredicate&& predicate);
+
+		/**
+		 * @brief			Reads a char from the stream.
+		 * @return			The char read.
+		 */
+		char get_char();
+
+		/**
+		 * @brief			Returns the next char from the stream without advancing.
+		 */
+		char peek_char();
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON output stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
+		using base  = ostream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_ostream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_ostream(json_ostream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_ostream(const json_ostream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Writes a JSON token to the stream from the buffer.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 */
+		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a space to the stream.
+		 */
+		void put_space();
+
+		/**
+		 * @brief			Writes a tab to the stream.
+		 */
+		void put_tab();
+
+		/**
+		 * @brief			Writes a CR to the stream.
+		 */
+		void put_cr();
+
+		/**
+		 * @brief			Writes a LF to the stream.
+		 */
+		void put_lf();
+
+		/**
+		 * @brief			Writes `null` to the stream.
+		 */
+		void put_null();
+
+		/**
+		 * @brief			Writes a boolean value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_boolean(bool value);
+
+		/**
+		 * @brief			Writes a number value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_number(double value);
+
+		/**
+		 * @brief			Writes a string value to the stream.
+		 * @param buffer	The string to write.
+		 * @param size		String length.
+		 */
+		void put_string(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a property name to the stream.
+		 * @param buffer	The property name to write.
+		 * @param size		Property name length.
+		 */
+		void put_property(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes `[` to the stream.
+		 */
+		void put_begin_array();
+
+		/**
+		 * @brief			Writes `]` to the stream.
+		 */
+		void put_end_array();
+
+		/**
+		 * @brief			Writes `{` to the stream.
+		 */
+		void put_begin_object();
+
+		/**
+		 * @brief			Writes `}` to the stream.
+		 */
+		void put_end_object();
+
+	public:
+		/**
+		 * @brief			Writes a sequence of chars to the stream.
+		 * @param buffer	The sequence to write.
+		 * @param size		Sequence length.
+		 */
+		std::size_t put_chars(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a char to the stream.
+		 * @param ch		Char to write.
+		 * @return			1 = success. 0 = error.
+		 */
+		std::size_t put_char(char ch);
+
+	protected:
+		/**
+		 * @brief			Writes the content of a string, escaping the chars that may not appear in a JSON string.
+		 * @param buffer	String content.
+		 * @param size		Content length.
+		 */
+		std::size_t put_string_content(const char* buffer, std::size_t size);
+
+	private:
+		/**
+		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
+		 */
+		bool _skip_comma;
+	};
+
+}
+
diff --git a/src/json.h b/src/json.h
index af910ba..0b8d28d 100644
--- a/src/json.h
+++ b/src/json.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 #include <cstdlib>
 #include <cstdio>
@@ -851,6 +852,11 @@ namespace abc {
 			return;
 		}
 
+		if (!std::isfinite(value)) {
+			base::set_bad();
+			return;
+		}
+
 		if (state::levels() > 0 && state::top_level() == json::level::array && !_skip_comma) {
 			put_chars(",", 1);
 		}
@@ -886,7 +892,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\"", 1);
 
 		_skip_comma = false;
@@ -915,7 +921,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\":", 2);
 
 		_skip_comma = true;
@@ -1015,6 +1021,31 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline std::size_t json_ostream<MaxLevels, Log>::put_string_content(const char* buffer, std::size_t size) {
+		std::size_t pcount = 0;
+
+		for (std::size_t i = 0; i < size && base::is_good(); i++) {
+			char ch = buffer[i];
+
+			if (ch == '"' || ch == '\\') {
+				pcount += put_chars("\\", 1);
+				pcount += put_chars(&ch, 1);
+			}
+			else if (0 <= ch && ch < 0x20) {
+				char escape[6 + 1];
+				std::snprintf(escape, sizeof(escape), "\\u%4.4x", ch);
+				pcount += put_chars(escape, 6);
+			}
+			else {
+				pcount += put_chars(&ch, 1);
+			}
+		}
+
+		return pcount;
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
-- 
2.43.0


From 11fad1a190513a07241e0872d639796f553b41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 04/87] fix: http streams: make reset() compile and clear the
 stream

---
 src/http.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..2eab8ce 100644
--- a/src/http.h
+++ b/src/http.h
@@ -727,7 +727,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_istream<Log>::reset() {
-		base::reset(http::item::method);
+		abc::istream::reset();
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -845,7 +846,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_ostream<Log>::reset() {
-		base::reset(http::item::method);
+		abc::ostream::reset();
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -930,7 +932,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_istream<Log>::reset() {
-		base::reset(http::item::protocol);
+		abc::istream::reset();
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
@@ -1005,7 +1008,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_ostream<Log>::reset() {
-		base::reset(http::item::protocol);
+		abc::ostream::reset();
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
-- 
2.43.0


From 10a66a4de6050d8f8cd4a74105de329d4631f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 05/87] fix: http_istream: do not count a byte past the end as
 body

---
 src/http.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 2eab8ce..0d2253b 100644
--- a/src/http.h
+++ b/src/http.h
@@ -323,7 +323,10 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			int ch = base::get();
+			if (base::is_good()) {
+				buffer[gcount++] = (char)ch;
+			}
 		}
 
 		return gcount;
-- 
2.43.0


From 92ab04b5e1e842ce14d2bfd7e91013f25e925313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 06/87] fix: http ostreams: refuse a field that cannot be sent
 whole instead of truncating it

---
 src/http.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http.h b/src/http.h
index 0d2253b..1b6fc3e 100644
--- a/src/http.h
+++ b/src/http.h
@@ -868,6 +868,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_token(buffer, size);
+		base::set_bad_if(pcount < size);
 
 		base::put_space();
 
@@ -893,6 +894,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_prints(buffer, size);
+		base::set_bad_if(pcount < size);
 
 		base::put_space();
 
@@ -1040,6 +1042,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_digits(buffer, size);
+		base::set_bad_if(pcount < size);
 
 		base::put_space();
 
@@ -1067,6 +1070,7 @@ namespace abc {
 			}
 
 			pcount = base::put_prints_and_spaces(buffer, size);
+			base::set_bad_if(pcount < size);
 		}
 
 		base::put_crlf();
-- 
2.43.0


From 7a006fae2f98ecc98f554a919548aca70d7b73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 07/87] fix: split_resource: stop at the end of the resource

---
 src/http.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/http.h b/src/http.h
index 1b6fc3e..6eb56ba 100644
--- a/src/http.h
+++ b/src/http.h
@@ -799,9 +799,7 @@ namespace abc {
 		while (param < end && param != nullptr) {
 			*param++ = '\0';
 
-			if (param < end && *param != '\0') {
-				param = std::strchr(param, '&');
-			}
+			param = param < end ? std::strchr(param, '&') : nullptr;
 		}
 	}
 
-- 
2.43.0


From 37f55c4bbae250bfdcf83d034cd0d894ddc9c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 08/87] fix: timestamp: century days that are not leap
 (2070-02-28 and after 2100-02-28)

---
 src/timestamp.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..becdf35 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -68,6 +68,7 @@ namespace abc {
 	static constexpr date_count_t days_per_1_year = 365;
 	static constexpr date_count_t days_per_1_year_leap = days_per_1_year + 1;
 	static constexpr date_count_t days_per_4_years = 3 * days_per_1_year + days_per_1_year_leap;
+	static constexpr date_count_t days_per_30_years = 7 * days_per_4_years + 2 * days_per_1_year;
 	static constexpr date_count_t days_per_100_years_leap = 25 * days_per_4_years;
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
@@ -188,12 +189,12 @@ namespace abc {
 		if (remaining_days >= days_per_100_years_leap) {
 			year += 100;
 			remaining_days -= days_per_100_years_leap;
-		}
 
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
+			// The following century boundaries are not leap.
+			// We artificailly make them leap. The first one (2100) is 30 years away.
+			if (remaining_days >= days_per_30_years) {
+				remaining_days += 1 + (remaining_days - days_per_30_years) / days_per_100_years;
+			}
 		}
 
 		// Now we have homogenious 4-year chunks.
-- 
2.43.0


From ac5fb6b313a75ca13be8ee3200dcee95ec493626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 09/87] fix: timestamp: February 29 was shown as March 1

---
 src/timestamp.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index becdf35..d0dbdf2 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -207,18 +207,18 @@ namespace abc {
 		if (remaining_days >= days_per_1_year) {
 			year++;
 			remaining_days -= days_per_1_year;
-		}
 
-		// The second year is leap.
-		if (remaining_days >= days_per_1_year_leap) {
-			year++;
-			remaining_days -= days_per_1_year_leap;
-		}
+			// The second year is leap.
+			if (remaining_days >= days_per_1_year_leap) {
+				year++;
+				remaining_days -= days_per_1_year_leap;
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+				// The remaining year(s) are not leap.
+				if (remaining_days >= days_per_1_year) {
+					year += (remaining_days / days_per_1_year);
+					remaining_days = remaining_days % days_per_1_year;
+				}
+			}
 		}
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
-- 
2.43.0


From 6a79b05bad9cac900ecabbf7452d937b77b88516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 10/87] fix: line_ostream: a line longer than its buffer is cut
 instead of running over it

---
 src/table.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..60ab414 100644
--- a/src/table.h
+++ b/src/table.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <algorithm>
 #include <cstdarg>
 #include <cstring>
 
@@ -140,8 +141,11 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
-		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+		// There is always room for Size chars and a terminator. The returned count does not consider that limit.
+		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount + 1, format, vlist);
+		if (pc > 0) {
+			_pcount += std::min(static_cast<std::size_t>(pc), Size - _pcount);
+		}
 	}
 
 
-- 
2.43.0


From 4c15903a2c247a0e62c325cf226ef4cb9bb7736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 11/87] fix: line_ostream: a line that was moved away is not
 put twice

---
 src/table.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/table.h b/src/table.h
index 60ab414..6fb1ca2 100644
--- a/src/table.h
+++ b/src/table.h
@@ -94,6 +94,8 @@ namespace abc {
 		, _sb(std::move(other._sb))
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From ae2fce4ac878b94f6605e80ae012b2c3cf029072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 12/87] fix: line_ostream: terminate a thread id that does not
 fit

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index 6fb1ca2..394429d 100644
--- a/src/table.h
+++ b/src/table.h
@@ -160,7 +160,7 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_thread_id(std::thread::id thread_id, const char* format) noexcept {
-		char buf[17];
+		char buf[17] = { };
 		buffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof(buf) - 1);
 
 		try {
-- 
2.43.0


From 1ab1c3aa151cd0f5432dc55605cf52df96b16375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 13/87] fix: test_line_ostream: severity 0 wrote in front of
 the indentation buffer

---
 src/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.h b/src/log.h
index 56c2efa..da7a2a1 100644
--- a/src/log.h
+++ b/src/log.h
@@ -227,7 +227,7 @@ namespace abc {
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
 		std::memset(buf_severity, ' ', 2 * severity);
-		buf_severity[2 * (severity - 1)] = '\0';
+		buf_severity[severity > 0 ? 2 * (severity - 1) : 0] = '\0';
 		base::put_any(buf_severity);
 	}
 
-- 
2.43.0


From 0184914373cbe132facba18c99c96dbd2f7e1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 14/87] fix: put_binary: no empty line behind a buffer that
 fills its last line

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index 394429d..6a26b0c 100644
--- a/src/table.h
+++ b/src/table.h
@@ -201,7 +201,7 @@ namespace abc {
 		const std::uint8_t* chunk = static_cast<const std::uint8_t*>(buffer) + buffer_offset;
 		std::size_t local_offset = 0;
 		char* line = _buffer + _pcount;
-		bool hasMore = true;
+		bool hasMore = buffer_offset + chunk_size < buffer_size;
 
 		// 0000:
 		line[local_offset++] = hex[(buffer_offset >> 12) & 0xf];
-- 
2.43.0


From 0097983e77b781d619edf153d2c4481adffaf917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 15/87] fix: vmem_pool treats a page the OS refuses to map as
 not locked, and takes back a partially written new page

---
 src/x/vmem_pool.x.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c29ca93..faf9bf6 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -440,6 +440,13 @@ namespace abc {
 		if (wb != vmem_page_size) {
 			page_pos = vmem_page_pos_nil;
 
+			// A partial page would shift all the pages after it.
+			if (wb > 0 && ftruncate(_fd, page_off) != 0) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::important, 0x107f0, "vmem_pool::create_page() ftruncate errno=%d", errno);
+				}
+			}
+
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%l, errno=%d", (long)wb, errno);
 			}
@@ -498,6 +505,11 @@ namespace abc {
 		else {
 			// The page is not mapped. Map it. Then lock it.
 			page_ptr = map_new_page(i, page_pos);
+
+			if (page_ptr == nullptr) {
+				// The OS refused to map the page.
+				return nullptr;
+			}
 		}
 
 		// Optimization: Swap this page forward (once) to keep pages sorted by keep_count.
@@ -787,6 +799,10 @@ namespace abc {
 				i, (long long)page_pos, ptr, errno);
 		}
 
+		if (ptr == MAP_FAILED) {
+			return nullptr;
+		}
+
 		_mapped_page_count++;
 
 		// Set the slot.
-- 
2.43.0


From 08b4260680ad5a56b9c1c2f1df312e6a35579677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 16/87] fix: vmem_pool refuses a file without a start page, and
 closes the file when it cannot be opened as a pool

---
 src/i/vmem_pool.i.h |  5 ++++
 src/x/vmem_pool.x.h | 62 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/i/vmem_pool.i.h b/src/i/vmem_pool.i.h
index 9c71eb0..d082f54 100644
--- a/src/i/vmem_pool.i.h
+++ b/src/i/vmem_pool.i.h
@@ -207,6 +207,11 @@ namespace abc {
 		 */
 		void verify_start_page_or_throw();
 
+		/**
+		 * @brief				Unmaps all pages and closes the pool file.
+		 */
+		void close_pool() noexcept;
+
 	// alloc_page() / free_page() helpers
 	private:
 		/**
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index faf9bf6..b2ba7f4 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -50,6 +50,7 @@ namespace abc {
 	template <std::size_t MaxMappedPages, typename Log>
 	inline vmem_pool<MaxMappedPages, Log>::vmem_pool(const char* file_path, Log* log)
 		: _ready(false)
+		, _fd(-1)
 		, _mapped_page_count(0)
 		, _mapped_pages{ }
 		, _mapped_page_totals{ }
@@ -61,13 +62,20 @@ namespace abc {
 
 		verify_args_or_throw(file_path);
 
-		bool is_init = open_pool_or_throw(file_path);
+		try {
+			bool is_init = open_pool_or_throw(file_path);
 
-		if (!is_init) {
-			init_pool_or_throw();
+			if (!is_init) {
+				init_pool_or_throw();
+			}
+
+			verify_pool_or_throw();
 		}
+		catch (...) {
+			close_pool();
 
-		verify_pool_or_throw();
+			throw;
+		}
 
 		_ready = true;
 
@@ -111,20 +119,7 @@ namespace abc {
 				return;
 			}
 
-			for (std::size_t i = 0; i < _mapped_page_count; i++) {
-				std::size_t dummy_unmapped_count = 0;
-				std::size_t dummy_empty_i = _mapped_page_count;
-
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
-				}
-				unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
-			}
-
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::~vmem_pool() Close file fd=%d", _fd);
-			}
-			close(_fd);
+			close_pool();
 		}
 
 		_ready = false;
@@ -136,6 +131,32 @@ namespace abc {
 		}
 	}
 
+
+	template <std::size_t MaxMappedPages, typename Log>
+	inline void vmem_pool<MaxMappedPages, Log>::close_pool() noexcept {
+		if (_fd < 0) {
+			return;
+		}
+
+		for (std::size_t i = 0; i < _mapped_page_count; i++) {
+			std::size_t dummy_unmapped_count = 0;
+			std::size_t dummy_empty_i = _mapped_page_count;
+
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::close_pool() Unmap page i=%zu", i);
+			}
+			unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
+		}
+
+		if (_log != nullptr) {
+			_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::close_pool() Close file fd=%d", _fd);
+		}
+		close(_fd);
+
+		_fd = -1;
+		_mapped_page_count = 0;
+	}
+
 	template <std::size_t MaxMappedPages, typename Log>
 	inline void vmem_pool<MaxMappedPages, Log>::verify_args_or_throw(const char* file_path) {
 		if (Pool::max_mapped_pages() < vmem_min_mapped_pages) {
@@ -174,6 +195,11 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - size", 0x10380, _log);
 		}
 
+		// Every pool has at least a root page and a start page.
+		if (file_size == vmem_page_size) {
+			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - no start page", 0x107f1, _log);
+		}
+
 		bool is_init = (file_size > 0);
 
 		if (_log != nullptr) {
-- 
2.43.0


From d3bdb72abe4611ceb5ecab1a6f350d0a45e2547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 17/87] fix: vmem iterators work without a log

---
 src/x/vmem_iterator.x.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_iterator.x.h b/src/x/vmem_iterator.x.h
index 5af16f6..693c7a8 100644
--- a/src/x/vmem_iterator.x.h
+++ b/src/x/vmem_iterator.x.h
@@ -154,7 +154,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->next(*this);
@@ -166,7 +168,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -180,7 +184,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->prev(*this);
@@ -192,7 +198,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -247,7 +255,9 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_iterator::deref() Dereferencing invalid iterator", 0x10606);
 		}
 
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		}
 
 		return *p;
 	}
-- 
2.43.0


From 2ef4af23190b921fd5be3f1c7289ca81acbc80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 18/87] fix: vmem_pool hands out a free page only after it has
 left the free list

---
 src/x/vmem_pool.x.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index b2ba7f4..c8c0ee0 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -402,9 +402,14 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				page_pos = free_pages_linked.back();
+				vmem_page_pos_t back_page_pos = root_page->free_pages.back_page_pos;
 				free_pages_linked.pop_back();
 
+				// The page may only be handed out if it has left the list. Otherwise, it would be handed out again.
+				if (root_page->free_pages.back_page_pos != back_page_pos) {
+					page_pos = back_page_pos;
+				}
+
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10394, "vmem_pool::pop_free_page_pos() Found free page. page_pos=0x%llx", (long long)page_pos);
 				}
-- 
2.43.0


From 54cf670e6bb9dba585fcc77e198046eee15e806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 19/87] fix: vmem_container frees an erased page once

---
 src/x/vmem_container.x.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f6a69d..4aad513 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1026,12 +1026,9 @@ namespace abc {
 				(long long)page_pos);
 		}
 
+		// Erasing the page from the linked list also frees it.
 		bool ok = erase_page_pos(page_pos);
 
-		if (ok) {
-			page.free();
-		}
-
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x1047a, "vmem_container::erase_page() Done. ok=%d, page_pos=0x%llx",
 				ok, (long long)page_pos);
-- 
2.43.0


From 1b5a478e6d59da57689b37aa937bcb61e133c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 20/87] fix: vmem_linked::splice leaves the other list empty
 when this one was empty

---
 src/x/vmem_linked.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index f40416c..b7898a7 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -523,6 +523,10 @@ namespace abc {
 		else if (empty()) {
 			// Take over the other state.
 			*_state = *other._state;
+
+			// Empty other state.
+			other._state->front_page_pos = vmem_page_pos_nil;
+			other._state->back_page_pos = vmem_page_pos_nil;
 		}
 		else {
 			// Connect the back page of this and the front page of the other.
-- 
2.43.0


From ac811a30b618519b675764789c2fae4aa1dc2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 21/87] fix: vmem_container merges an underfilled page with one
 neighbour, not two

---
 src/x/vmem_container.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 4aad513..66f087e 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -868,8 +868,8 @@ namespace abc {
 			result = balance_merge_next(itr, page, container_page);
 		}
 
-		// Try the previous page.
-		if (container_page->prev_page_pos != vmem_page_pos_nil) {
+		// Try the previous page, unless the next page has been merged - only one page may be erased, because there is only one lead to report it.
+		if (result.page_leads[1].operation == vmem_container_page_lead_operation::none && container_page->prev_page_pos != vmem_page_pos_nil) {
 			result = balance_merge_prev(itr, page, container_page);
 		}
 
-- 
2.43.0


From 458a49b4c20a42227fd3368734897d9255b1e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 22/87] fix: vmem_container::erase returns the current end()
 when it erases the back page

---
 src/x/vmem_container.x.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 66f087e..f5ee05b 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -783,6 +783,11 @@ namespace abc {
 
 				erase_page(page);
 				container_page = nullptr;
+
+				// The back page may have changed.
+				if (!result.iterator.can_deref()) {
+					result.iterator = end_itr();
+				}
 			}
 		}
 
-- 
2.43.0


From e52a72d02c0aa35c906ea15c993b51fd3f609048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 23/87] fix: vmem_container::clear resets the item count

---
 src/x/vmem_container.x.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index f5ee05b..cf49f14 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1090,6 +1090,8 @@ namespace abc {
 	inline void vmem_container<T, Header, Pool, Log>::clear() noexcept {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
+
+		_state->total_item_count = 0;
 	}
 
 
-- 
2.43.0


From bbcbda1a7732566ed81037959f3ade1ce2588d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 24/87] fix: vmem_container inserts and erases ranges across
 pages

---
 src/x/vmem_container.x.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index cf49f14..1088301 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -386,14 +386,30 @@ namespace abc {
 	template <typename InputItr>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::insert(const_iterator itr, InputItr first, InputItr last) {
 		iterator ret(itr);
+		std::size_t count = 0;
 
 		for (InputItr item = first; item != last; item++) {
-			if (!insert(itr++, *item).can_deref()) {
+			// Items move while others are being inserted. So, only the iterator that was returned last is good.
+			iterator next_itr(ret);
+			if (count > 0) {
+				next_itr++;
+			}
+
+			iterator item_itr = insert(next_itr, *item);
+			if (!item_itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x1044e, "vmem_container::insert() Breaking from the loop.");
 				}
 				break;
 			}
+
+			ret = item_itr;
+			count++;
+		}
+
+		// Go back to the first inserted item.
+		for (; count > 1; count--) {
+			ret--;
 		}
 
 		return ret;
@@ -710,9 +726,15 @@ namespace abc {
 
 	template <typename T, typename Header, typename Pool, typename Log>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::erase(const_iterator first, const_iterator last) {
+		// Items move while others are being erased. So, last must be converted to a count up front.
+		std::size_t count = 0;
+		for (const_iterator item_itr = first; item_itr != last && item_itr.can_deref(); item_itr++) {
+			count++;
+		}
+
 		iterator itr = first;
 
-		while (itr != last) {
+		while (count-- > 0) {
 			if (!itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10464, "vmem_container::erase(first, last) Breaking from the loop.");
-- 
2.43.0


From 414c392f4c4328d559c31fa81502a922533acf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 25/87] fix: vmem_container never inserts an item into a full
 page

---
 src/x/vmem_container.x.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 1088301..f6f5965 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -521,6 +521,15 @@ namespace abc {
 		// Decide whether we should balance before we alter container_page.
 		bool balance = should_balance_insert(itr, container_page);
 
+		if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() < container_page->item_count) {
+			// There is no room before an item on a full page, unless items are moved to the new page.
+			balance = true;
+		}
+		else if (page_capacity() == 1) {
+			// There is nothing to balance.
+			balance = false;
+		}
+
 		vmem_page<Pool, Log> new_page(nullptr);
 		vmem_container_page<T, Header>* new_container_page = nullptr;
 		bool ok = insert_page_after(itr.page_pos(), new_page, new_container_page);
@@ -530,7 +539,7 @@ namespace abc {
 				balance_split(itr.page_pos(), container_page, new_page.pos(), new_container_page);
 			}
 
-			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count) {
+			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()) {
 				// Inserting to the former page.
 				result = insert_with_capacity(itr, item, container_page);
 			}
@@ -597,7 +606,7 @@ namespace abc {
 				(long long)page_pos, (long long)new_page_pos);
 		}
 
-		constexpr std::size_t new_page_item_count = page_capacity() / 2;
+		constexpr std::size_t new_page_item_count = page_capacity() > 1 ? page_capacity() / 2 : 1;
 		constexpr std::size_t page_item_count = page_capacity() - new_page_item_count;
 		std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));
 		new_container_page->item_count = new_page_item_count;
-- 
2.43.0


From 53e62a3e8452df586093f5677c2ae4d31d5cd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 26/87] fix: vmem_map finds every key after pages have been
 split and merged across key pages

---
 src/i/vmem_map.i.h |  18 ++++++--
 src/x/vmem_map.x.h | 104 ++++++++++++++++++++++++++++-----------------
 2 files changed, 78 insertions(+), 44 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f4d02c7..8f8e97c 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -458,11 +458,21 @@ namespace abc {
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
 		/**
-		 * @brief				Returns the position of a key on a key page.
-		 * @param key_page_pos	Key page position.
-		 * @param key			Key
+		 * @brief				Returns the position of the key item that refers to a page.
+		 * @param key_page_pos	Key page position to start from. Receives the position of the key page where the item was found.
+		 * @param page_pos		Position of the referred page.
 		 */
-		vmem_item_pos_t key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept;
+		vmem_item_pos_t key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t page_pos) noexcept;
+
+		/**
+		 * @brief				Replaces the key by which a key page is found on the levels above it.
+		 * @param key_stack_itr	Level of the key page.
+		 * @param path_itr		Path element on the level of the key page.
+		 * @param find_result	`find_result2`
+		 * @param page_pos		Position of the key page.
+		 * @param key			New key.
+		 */
+		void replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, const find_result2& find_result, vmem_page_pos_t page_pos, const Key& key) noexcept;
 
 	public:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 708a649..7c4fc2c 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -434,13 +434,14 @@ namespace abc {
 						// page_leads[0] - insert; new page
 						// page_leads[1] - original; used only when a new level is created
 						
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
+						// The new page goes right after the original one.
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
+						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos + 1, vmem_iterator_edge::none, _log);
 
 						vmem_map_key<Key> key_item;
 						vmem_copy(key_item.key, page_leads[0].items[0].key);
@@ -449,24 +450,14 @@ namespace abc {
 						keys_result = parent_keys.insert2(parent_keys_itr, key_item);
 					}
 					else {
-						// page_leads[0] - replace or none; doesn't create new leads
+						// page_leads[0] - replace or none; a page may be found by a key that is lower than its first one
 						// page_leads[1] - erase
 
-						if (page_leads[0].operation == vmem_container_page_lead_operation::replace) {
-							vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-							if (parent_item_pos == vmem_item_pos_nil) {
-								ok = false;
-								break;
-							}
-
-							key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-							if (parent_keys_itr.can_deref()) {
-								vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
-								vmem_copy(key_ptr->key, page_leads[0].items[1].key);
-							}
+						if (page_leads[1].operation != vmem_container_page_lead_operation::erase) {
+							break;
 						}
 
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].items[0].key);
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
@@ -475,6 +466,11 @@ namespace abc {
 						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
 
 						keys_result = parent_keys.erase2(parent_keys_itr);
+
+						// The items of the erased page may have moved to the previous page. The key page must no longer be found by their keys.
+						if (keys_result.page_leads[0].operation == vmem_container_page_lead_operation::replace) {
+							replace_key(key_stack_itr, path_itr, find_result, keys_result.page_leads[0].page_pos, keys_result.page_leads[0].items[1].key);
+						}
 					}
 
 					if (!keys_result.iterator.is_valid()) {
@@ -518,17 +514,16 @@ namespace abc {
 						}
 					}
 					else {
-						if (!_key_stack.empty()) {
-							std::size_t top_keys_size = 2;
-							{
-								vmem_container_state top_keys_state = _key_stack.back();
-								vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
-								top_keys_size = top_keys.size();
-							}
+						while (!_key_stack.empty()) {
+							vmem_container_state top_keys_state = _key_stack.back();
+							vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
 
-							if (top_keys_size == 1) {
-								_key_stack.pop_back();
+							if (top_keys.size() > 1) {
+								break;
 							}
+
+							top_keys.clear();
+							_key_stack.pop_back();
 						}
 					}
 
@@ -556,31 +551,37 @@ namespace abc {
 
 
 	template <typename Key, typename T, typename Pool, typename Log>
-	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept {
+	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t page_pos) noexcept {
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx..., key=0x%llx...",
-				(long long)key_page_pos, *(long long*)&key);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx, page_pos=0x%llx",
+				(long long)key_page_pos, (long long)page_pos);
 		}
 
 		vmem_item_pos_t item_pos = vmem_item_pos_nil;
-		vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
 
-		if (page.ptr() == nullptr) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+		while (key_page_pos != vmem_page_pos_nil && item_pos == vmem_item_pos_nil) {
+			vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+
+			if (page.ptr() == nullptr) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+				}
+
+				break;
 			}
-		}
-		else {
+
 			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
 
-			item_pos = 0;
-			for (std::size_t i = 0; i < key_page->item_count && vmem_is_less(key_page->items[i].key, key); i++) {
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10527, "vmem_map::key_item_pos() item[%zu]=0x%llx..., key=0x%llx...",
-						i, *(long long*)&key_page->items[i].key, *(long long*)&key);
+			for (vmem_item_pos_t i = 0; i < key_page->item_count; i++) {
+				if (key_page->items[i].page_pos == page_pos) {
+					item_pos = i;
+					break;
 				}
+			}
 
-				item_pos++;
+			if (item_pos == vmem_item_pos_nil) {
+				// A page that has been merged may be under the next key page.
+				key_page_pos = key_page->next_page_pos;
 			}
 		}
 
@@ -592,6 +593,29 @@ namespace abc {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline void vmem_map<Key, T, Pool, Log>::replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, const find_result2& find_result, vmem_page_pos_t page_pos, const Key& key) noexcept {
+		vmem_item_pos_t item_pos = 0;
+
+		// If the key is the first one on its page, it must be replaced on the upper level too.
+		for (key_stack_itr++, path_itr--; item_pos == 0 && key_stack_itr != _key_stack.end() && path_itr != find_result.path.rbegin(); key_stack_itr++, path_itr--) {
+			vmem_page_pos_t key_page_pos = *path_itr;
+			item_pos = key_item_pos(key_page_pos, page_pos);
+
+			if (item_pos != vmem_item_pos_nil) {
+				vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+
+				if (page.ptr() != nullptr) {
+					vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
+					vmem_copy(key_page->items[item_pos].key, key);
+				}
+			}
+
+			page_pos = key_page_pos;
+		}
+	}
+
+
 	// ..............................................................
 
 
-- 
2.43.0


From f19f346e675fb6788db482e1e0672ffc8af4ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 27/87] fix: vmem_map::find2 looks only at items that are on
 the page

---
 src/x/vmem_map.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 7c4fc2c..62ce351 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -773,13 +773,13 @@ namespace abc {
 					item_pos++;
 				}
 
-				found = vmem_are_equal(value_page->items[item_pos].key, key);
+				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
 			}
 		}
 
 		result.ok = found;
 
-		if (page_pos != vmem_item_pos_nil && item_pos != vmem_item_pos_nil) {
+		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
 			result.iterator = iterator(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
 		}
 
-- 
2.43.0


From 0b9f333c16f4eb7791b86982fd8187c9bc59fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 28/87] fix: vmem_map look-ups work on a const map

---
 src/x/vmem_map.x.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 62ce351..954dcfa 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -801,7 +801,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_iterator vmem_map<Key, T, Pool, Log>::find(const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>>(this)->find(key);
+		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->find(key);
 	}
 
 
@@ -819,7 +819,8 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_pointer vmem_map<Key, T, Pool, Log>::operator [](const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->operator[](key);
+		pointer ptr = const_cast<vmem_map<Key, T, Pool, Log>*>(this)->operator[](key);
+		return const_pointer(ptr.pool(), ptr.page_pos(), ptr.byte_pos(), _log);
 	}
 
 
@@ -832,7 +833,8 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_pointer vmem_map<Key, T, Pool, Log>::at(const iterator_state& itr) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->at(itr);
+		pointer ptr = const_cast<vmem_map<Key, T, Pool, Log>*>(this)->at(itr);
+		return const_pointer(ptr.pool(), ptr.page_pos(), ptr.byte_pos(), _log);
 	}
 
 
-- 
2.43.0


From 117d63a9649ee784854090a431b9aa2547ae63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 29/87] fix: vmem_string_streambuf reads byte 0xFF as a char,
 not as the end

---
 src/x/vmem_string.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 548aa61..ed5c4bc 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -83,7 +83,7 @@ namespace abc {
 
 		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return std::char_traits<Char>::to_int_type(_get_ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From 7edae0ed3667411b5bb3ef55798c5d13ad193500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 30/87] fix: vmem_string_streambuf neither makes up nor loses
 chars when it overflows or moves

---
 src/x/vmem_string.x.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index ed5c4bc..1e72efb 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -57,8 +57,10 @@ namespace abc {
 		, _get_itr(std::move(other._get_itr))
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		base::setg(&_get_ch, &_get_ch + 1, &_get_ch + 1);
+		// Chars that have been fetched but not read, or put but not stored, move along.
+		base::setg(&_get_ch, other.gptr() != other.egptr() ? &_get_ch : &_get_ch + 1, &_get_ch + 1);
 		base::setp(&_put_ch, &_put_ch + 1);
+		base::pbump(other.pptr() - other.pbase());
 
 		other._string = nullptr;
 		other._log = nullptr;
@@ -88,12 +90,17 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		_string->push_back(_put_ch);
-		_string->push_back(ch);
+		if (base::pptr() != &_put_ch) {
+			_string->push_back(_put_ch);
+		}
+
+		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
+			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+		}
 
 		base::setp(&_put_ch, &_put_ch + 1);
 
-		return ch;
+		return std::char_traits<Char>::not_eof(ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From e129f9eee3845b515a034d6563042d03bbc055a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 31/87] fix: vmem_container releases pages before it frees one,
 so that the minimum of mapped pages suffices

---
 src/x/vmem_container.x.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index f6f5965..6f442c9 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -967,9 +967,11 @@ namespace abc {
 				// Update the item count on this page.
 				container_page->item_count += next_container_page->item_count;
 
-				// Free the next page.
-				erase_page(next_page);
+				// Free the next page. Neither page is needed any more.
 				next_container_page = nullptr;
+				container_page = nullptr;
+				page = vmem_page<Pool, Log>(nullptr);
+				erase_page(next_page);
 			}
 		}
 
@@ -1038,9 +1040,11 @@ namespace abc {
 				// Update the item count on the previous page.
 				prev_container_page->item_count += container_page->item_count;
 
-				// Free this page.
-				erase_page(page);
+				// Free this page. Neither page is needed any more.
+				prev_container_page = nullptr;
 				container_page = nullptr;
+				prev_page = vmem_page<Pool, Log>(nullptr);
+				erase_page(page);
 			}
 		}
 
@@ -1062,6 +1066,9 @@ namespace abc {
 				(long long)page_pos);
 		}
 
+		// Unlock the page. Freeing it may need as many other pages as could be mapped.
+		page = vmem_page<Pool, Log>(nullptr);
+
 		// Erasing the page from the linked list also frees it.
 		bool ok = erase_page_pos(page_pos);
 
-- 
2.43.0


From 33ef7a74093c0c5e64e30930758f1861622df74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 32/87] fix: vmem_pool does not lose a new page that cannot be
 mapped

---
 src/x/vmem_pool.x.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c8c0ee0..6eae936 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -340,11 +340,18 @@ namespace abc {
 
 		vmem_page_pos_t page_pos = vmem_page_pos_nil;
 
+		bool can_map = true;
+
 		if (_ready) {
 			page_pos = pop_free_page_pos();
+
+			if (page_pos == vmem_page_pos_nil) {
+				// If not even the root page could be mapped, the new page couldn't be mapped either, and it would be lost.
+				can_map = vmem_page<Pool, Log>(this, vmem_page_pos_root, _log).ptr() != nullptr;
+			}
 		}
 
-		if (page_pos == vmem_page_pos_nil) {
+		if (page_pos == vmem_page_pos_nil && can_map) {
 			page_pos = create_page();
 		}
 
@@ -957,6 +964,13 @@ namespace abc {
 			if (!alloc()) {
 				return;
 			}
+
+			// A page that cannot be used must not be lost.
+			if (!lock()) {
+				free();
+			}
+
+			return;
 		}
 
 		lock();
-- 
2.43.0


From ffdcb17c21a835592e75bec80a0b45813865df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 33/87] fix: socket_streambuf reports the end of the stream,
 and only that, as eof

---
 src/socket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 513e35e..06b87e0 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -552,11 +552,15 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (_socket->receive(&_get_ch, sizeof(char)) != sizeof(char)) {
+			setg(&_get_ch, &_get_ch, &_get_ch);
+
+			return traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return traits_type::to_int_type(_get_ch);
 	}
 
 
-- 
2.43.0


From 64c90e064d53a1c660163078590dd6d792fac595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 34/87] fix: socket_streambuf reports a send that fails

---
 src/socket.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 06b87e0..5594af9 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -566,19 +566,28 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (!traits_type::eq_int_type(ch, traits_type::eof())) {
+			const char put_ch = traits_type::to_char_type(ch);
 
-		return ch;
+			if (_socket->send(&put_ch, sizeof(char)) != sizeof(char)) {
+				return traits_type::eof();
+			}
+		}
+
+		return traits_type::not_eof(ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
 		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
+			if (_socket->send(&_put_ch, sizeof(char)) != sizeof(char)) {
+				return -1;
+			}
 		}
 
 		setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 0319bc8dc1139cb0b9b56fbddc26176a29f0a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 35/87] fix: socket_streambuf moves its pending chars

---
 src/socket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index 5594af9..f18369c 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -541,8 +541,10 @@ namespace abc {
 		, _log(other._log)
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		setg(&_get_ch, &_get_ch, &_get_ch);
+		// The pending chars move, too.
+		setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + (other.egptr() - other.eback()));
 		setp(&_put_ch, &_put_ch + 1);
+		pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
-- 
2.43.0


From 665848ff91ac20690a8fdbf86a53c3341bfca175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 36/87] fix: sending to a peer that has gone away does not end
 the process

---
 src/i/socket.i.h | 9 +++++++++
 src/socket.h     | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 68395d5..0fccc55 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -95,6 +95,15 @@ namespace abc {
 		};
 
 		using backlog_size_t = int;
+
+		/**
+		 * @brief				Flags passed to `::send()`. A peer that has gone away should fail the call rather than raise SIGPIPE.
+		 */
+#if defined(MSG_NOSIGNAL)
+		constexpr int send_flags = MSG_NOSIGNAL;
+#else
+		constexpr int send_flags = 0;
+#endif
 	}
 
 
diff --git a/src/socket.h b/src/socket.h
index f18369c..26c2d61 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -363,10 +363,10 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, 0, &address->value, address->size);
+			sent_size = ::sendto(base::fd(), buffer, size, socket::send_flags, &address->value, address->size);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, 0);
+			sent_size = ::send(base::fd(), buffer, size, socket::send_flags);
 		}
 
 		if (sent_size < 0) {
-- 
2.43.0


From 3db2ea04c9bd091e7946c18023e93bd81c849514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 37/87] fix: socket::address holds an ipv6 address

---
 src/i/socket.i.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 0fccc55..9ad715f 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -90,8 +90,11 @@ namespace abc {
 		 * @brief				Convenience wrapper around `sockaddr`.
 		 */
 		struct address {
-			sockaddr			value;
-			socklen_t			size = sizeof(sockaddr);
+			union {
+				sockaddr			value;
+				sockaddr_storage	storage;
+			};
+			socklen_t			size = sizeof(sockaddr_storage);
 		};
 
 		using backlog_size_t = int;
-- 
2.43.0


From f70a6b7b392bc7b4a3232e1ec12f6efba606745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 38/87] fix: connecting over TLS does not need a log

---
 src/openssl_socket.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ed8e3c8..6745b01 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -266,13 +266,22 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
 
-		log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		}
+
 		int ret = SSL_connect(_ssl);
-		log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		}
 
 		if (ret != 1) {
 			int err = SSL_get_error(_ssl, ret);
-			log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			}
 
 			throw exception<std::runtime_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_connect()", 0x10789, log_local);
 		}
-- 
2.43.0


From af29dda1df6057cd53d17d809ca75a3e67bbe9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 39/87] fix: TLS objects are freed when a socket can not be
 made

---
 src/openssl_socket.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 6745b01..c9fc258 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -57,6 +57,9 @@ namespace abc {
 
 		_ssl = SSL_new(_ctx);
 		if (_ssl == nullptr) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x10766, log_local);
 		}
 
@@ -103,6 +106,9 @@ namespace abc {
 
 		int stat = SSL_set_fd(_ssl, fd);
 		if (stat <= 0) {
+			SSL_free(_ssl);
+			_ssl = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_set_fd()", 0x1076c, log_local);
 		}
 
@@ -329,11 +335,17 @@ namespace abc {
 
 		int stat = SSL_CTX_use_certificate_file(_ctx, cert_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_certificate_file()", 0x1078f, log_local);
 		}
 
 	    stat = SSL_CTX_use_PrivateKey_file(_ctx, pkey_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
+			_ctx = nullptr;
+
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_PrivateKey_file()", 0x10790, log_local);
 		}
 
-- 
2.43.0


From df38c1a981798ccb0946122be3a0b173f8ad507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 40/87] fix: the default REST response has a reason phrase

---
 src/endpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..689234e 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -242,7 +242,7 @@ namespace abc {
 			set_shutdown_requested();
 		}
 
-		send_simple_response(http, status_code::OK, status_code::OK, content_type::text, "TODO: Override process_rest_request().", 0x102eb);
+		send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, "TODO: Override process_rest_request().", 0x102eb);
 	}
 
 
-- 
2.43.0


From 5d4a6a1286941a517e9955d15816a50fb8ae42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 41/87] fix: a file request can not leave the root directory

---
 src/endpoint.h     | 24 +++++++++++++++++++++++-
 src/i/endpoint.i.h |  7 +++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 689234e..2c719c1 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -171,7 +171,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -182,6 +182,12 @@ namespace abc {
 			return;
 		}
 
+		// Check if the path leads out of the root dir.
+		if (has_parent_segment(resource)) {
+			send_simple_response(http, status_code::Forbidden, reason_phrase::Forbidden, content_type::text, "Error: The requested resource is outside of the root directory.", 0x107f2);
+			return;
+		}
+
 		// Check if the file exists.
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
@@ -232,6 +238,22 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::has_parent_segment(const char* resource) {
+		for (const char* segment = resource; segment != nullptr; segment = std::strchr(segment, '/')) {
+			if (*segment == '/') {
+				segment++;
+			}
+
+			if (segment[0] == '.' && segment[1] == '.' && (segment[2] == '/' || segment[2] == '\0')) {
+				return true;
+			}
+		}
+
+		return false;
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_rest_request(abc::http_server_stream<Log>& http, const char* method, const char* resource) {
 		if (_log != nullptr) {
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 7cfb4b6..3d0bbae 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -336,6 +336,13 @@ namespace abc {
 		bool is_shutdown_requested() const;
 
 	private:
+		/**
+		 * @brief				Checks whether a resource contains a `..` segment.
+		 * @param resource		HTTP resource.
+		 * @return				`true` = yes; `false` = no.
+		 */
+		static bool has_parent_segment(const char* resource);
+
 		/**
 		 * @brief				Thread function for the 'start' thread.
 		 */
-- 
2.43.0


From 5cfabf345739e692bab136a8fd72cee595f5449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 42/87] fix: only files that can be read are sent, with their
 length

---
 src/endpoint.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 2c719c1..0fdb3a1 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -196,8 +196,13 @@ namespace abc {
 		struct stat st;
 		int err = ::stat(path, &st);
 
+		std::ifstream file;
+		if (err == 0 && S_ISREG(st.st_mode)) {
+			file.open(path);
+		}
+
 		// If the file was not opened, return 404.
-		if (err != 0) {
+		if (!file.is_open()) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -229,10 +234,11 @@ namespace abc {
 		http.put_header_value(fsize_buffer);
 		http.end_headers();
 
-		std::ifstream file(path);
+		// Don't send more than what the header says, even if the file has grown.
 		char file_chunk[Limits::file_chunk_size];
 		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
-			file.read(file_chunk, sizeof(file_chunk));
+			std::size_t left_size = fsize - sent_size;
+			file.read(file_chunk, left_size < sizeof(file_chunk) ? left_size : sizeof(file_chunk));
 			http.put_body(file_chunk, file.gcount());
 		}
 	}
-- 
2.43.0


From 7a981d23a9a16028d0c2933cd6518458957a94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 43/87] fix: a request line that could not be read is refused

---
 src/endpoint.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 0fdb3a1..00419f6 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -52,6 +52,9 @@ namespace abc {
 		, _log(log)
 		, _requests_in_progress(0)
 		, _is_shutdown_requested(false) {
+		if (_config->root_dir_len >= Limits::resource_size) {
+			throw exception<std::logic_error, Log>("endpoint::endpoint() root_dir", 0x107f3, _log);
+		}
 	}
 
 
@@ -121,7 +124,7 @@ namespace abc {
 		}
 
 		char path[Limits::resource_size + 1];
-		std::strcpy(path, _config->root_dir);
+		std::memcpy(path, _config->root_dir, _config->root_dir_len);
 		char* resource = path + _config->root_dir_len;
 		http.get_resource(resource, sizeof(path) - _config->root_dir_len);
 		if (_log != nullptr) {
@@ -144,7 +147,12 @@ namespace abc {
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
-		if (is_file_request(method, resource)) {
+		// A request line that could not be read in full is neither.
+		if (!http.http_request_istream<Log>::good()) {
+			http.http_response_ostream<Log>::reset();
+			send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request line was not understood.", 0x107f4);
+		}
+		else if (is_file_request(method, resource)) {
 			process_file_request(http, method, resource, path);
 		}
 		else {
-- 
2.43.0


From 8b86cd7a569792514841bd4f6b036682361e4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 44/87] fix: the end of a shutdown is signaled once, after the
 last response

---
 src/endpoint.h     | 21 ++++++++++++++++-----
 src/i/endpoint.i.h |  6 ++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 00419f6..8d3697c 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -31,6 +31,7 @@ SOFTWARE.
 #include <future>
 #include <thread>
 #include <atomic>
+#include <mutex>
 #include <exception>
 #include <cstring>
 #include <sys/types.h>
@@ -138,11 +139,14 @@ namespace abc {
 		}
 
 		// It's OK to read a request as long as we don't return a broken response.
-		if (_is_shutdown_requested) {
-			return;
-		}
+		{
+			std::lock_guard<std::mutex> lock(_requests_mutex);
+			if (_is_shutdown_requested) {
+				return;
+			}
 
-		++_requests_in_progress;
+			++_requests_in_progress;
+		}
 
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
@@ -167,7 +171,14 @@ namespace abc {
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
 
-		if (--_requests_in_progress == 0 && _is_shutdown_requested) {
+		// Only the last request may signal the end of the shutdown.
+		bool is_last = false;
+		{
+			std::lock_guard<std::mutex> lock(_requests_mutex);
+			is_last = --_requests_in_progress == 0 && _is_shutdown_requested;
+		}
+
+		if (is_last) {
 			if (_log != nullptr) {
 				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 3d0bbae..9f8af46 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #include <future>
 #include <atomic>
+#include <mutex>
 
 #include "log.i.h"
 #include "socket.i.h"
@@ -370,6 +371,11 @@ namespace abc {
 		 */
 		std::promise<void> _promise;
 
+		/**
+		 * @brief				Guards the beginning and the end of a request against a shutdown.
+		 */
+		std::mutex _requests_mutex;
+
 		/**
 		 * @brief				Number of requests currently in progress.
 		 */
-- 
2.43.0


From 813616bad0dd78528abc293ec2b00728dcc70cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 45/87] fix: a connection that can not be accepted does not end
 the endpoint

---
 src/endpoint.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 8d3697c..6f49420 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -93,8 +93,16 @@ namespace abc {
 
 		while (_requests_in_progress != 0 || !_is_shutdown_requested) {
 			// Accept the next request and process it asynchronously.
-			ClientSocket connection = listener.accept();
-			std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			// A connection that fails must not end the endpoint.
+			try {
+				ClientSocket connection = listener.accept();
+				std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			}
+			catch (const std::exception& ex) {
+				if (_log != nullptr) {
+					_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x107f5, "Connection failed (%s) %s", _config->port, ex.what());
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From e6ac3baf109c5314586fa19a262d1f451f0649be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 46/87] fix: a request handler that throws does not end the
 process

---
 src/endpoint.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 6f49420..55724ce 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -160,15 +160,23 @@ namespace abc {
 		//    a) requests for static files
 		//    b) REST requests
 		// A request line that could not be read in full is neither.
-		if (!http.http_request_istream<Log>::good()) {
-			http.http_response_ostream<Log>::reset();
-			send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request line was not understood.", 0x107f4);
-		}
-		else if (is_file_request(method, resource)) {
-			process_file_request(http, method, resource, path);
+		// A request that fails must neither end the process nor hold up a shutdown.
+		try {
+			if (!http.http_request_istream<Log>::good()) {
+				http.http_response_ostream<Log>::reset();
+				send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request line was not understood.", 0x107f4);
+			}
+			else if (is_file_request(method, resource)) {
+				process_file_request(http, method, resource, path);
+			}
+			else {
+				process_rest_request(http, method, resource);
+			}
 		}
-		else {
-			process_rest_request(http, method, resource);
+		catch (const std::exception& ex) {
+			if (_log != nullptr) {
+				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x107f6, "Request failed (%s) %s", _config->port, ex.what());
+			}
 		}
 
 		// Don't forget to flush!
-- 
2.43.0


From 43b4d66d7fb05882ac580c55c88a136ad977e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 47/87] fix: the path of a multifile is complete at its longest
 and when it is empty

---
 src/multifile.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index be5892a..4cde388 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -59,7 +59,7 @@ namespace abc {
 		}
 
 		std::strncpy(_path, path, _path_length);
-		if (_path[_path_length - 1] != path_separator) {
+		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
 
@@ -70,7 +70,7 @@ namespace abc {
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline multifile_streambuf<MaxPath, Clock, Log>::multifile_streambuf(multifile_streambuf&& other) noexcept
 		: base(std::move(other)) {
-		std::strncpy(_path, other._path, MaxPath);
+		std::strncpy(_path, other._path, MaxPath + 1);
 		_path_length = other._path_length;
 		_mode = other._mode;
 		_log = other._log;
@@ -92,7 +92,7 @@ namespace abc {
 		}
 
 		timestamp<Clock> ts;
-		std::snprintf(_path + _path_length, MaxPath - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
+		std::snprintf(_path + _path_length, MaxPath + 1 - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
 		std::filebuf* op = base::open(_path, _mode);
 
-- 
2.43.0


From 39ce91f0e118f51c93f2e66161dca338608a4c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 48/87] fix: a size multifile counts what has been written once

---
 src/i/multifile.i.h | 13 -------------
 src/multifile.h     | 20 ++++----------------
 2 files changed, 4 insertions(+), 29 deletions(-)

diff --git a/src/i/multifile.i.h b/src/i/multifile.i.h
index 12267f7..6d8126d 100644
--- a/src/i/multifile.i.h
+++ b/src/i/multifile.i.h
@@ -199,24 +199,11 @@ namespace abc {
 		void reopen();
 
 	protected:
-		/**
-		 * @brief				Handler that counts the chars put out at once.
-		 * @param s				Char sequence to put out. 
-		 * @param count			Count of chars.
-		 */
-		virtual std::streamsize xsputn(const char* s, std::streamsize count) override;
-
 		/**
 		 * @brief				Handler that checks the size, and calls `reopen()` if needed.
 		 */
 		virtual int sync() override;
 
-	protected:
-		/**
-		 * @brief				Overrides the default pcount calculation.
-		 */
-		std::size_t pcount() const noexcept;
-
 	private:
 		/**
 		 * @brief				The size passed in to the constructor.
diff --git a/src/multifile.h b/src/multifile.h
index 4cde388..f8f85f7 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -159,20 +159,14 @@ namespace abc {
 	}
 
 
-	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline std::streamsize size_multifile_streambuf<MaxPath, Clock, Log>::xsputn(const char* s, std::streamsize count) {
-		_current_size += count;
-
-		return base::xsputn(s, count);
-	}
-
-
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		_current_size += pcount();
-
 		base::sync();
 
+		// What has been flushed is the position in the current file.
+		std::streamoff position = base::seekoff(0, std::ios_base::cur, std::ios_base::out);
+		_current_size = position > 0 ? static_cast<std::size_t>(position) : 0;
+
 		if (_current_size >= _size) {
 			reopen();
 		}
@@ -181,11 +175,5 @@ namespace abc {
 	}
 
 
-	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline std::size_t size_multifile_streambuf<MaxPath, Clock, Log>::pcount() const noexcept {
-		return base::pptr() - base::pbase();
-	}
-
-
 	// --------------------------------------------------------------
 }
-- 
2.43.0


From e3ed0c972221453aeacb4b53a2b6f4d0367867c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 49/87] fix: a multifile reports a failed flush

---
 src/multifile.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index f8f85f7..963046a 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -129,14 +129,14 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int duration_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		int result = base::sync();
 
 		timestamp<Clock> ts;
 		if (ts - _ts >= _duration) {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
@@ -161,7 +161,7 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		int result = base::sync();
 
 		// What has been flushed is the position in the current file.
 		std::streamoff position = base::seekoff(0, std::ios_base::cur, std::ios_base::out);
@@ -171,7 +171,7 @@ namespace abc {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
-- 
2.43.0


From 626aaefd348b3f0eb607f3b5e0108c92735e37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 50/87] fix: an SMBus operation that failed reports it without
 a log too

---
 src/x/gpio_smbus.x.h | 88 ++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index f2412b3..4242ebb 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,9 +130,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_ioctl_data msg{ };
@@ -143,9 +143,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -161,9 +161,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -178,9 +178,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -196,9 +196,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -213,9 +213,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -231,17 +231,17 @@ namespace abc {
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -257,9 +257,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -275,9 +275,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -290,9 +290,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -311,18 +311,18 @@ namespace abc {
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		std::uint8_t byte1;
 		if (!get_noreg(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
@@ -340,9 +340,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -356,9 +356,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -376,9 +376,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -392,9 +392,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? swap_bytes(data.word) : data.word;
@@ -412,9 +412,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -429,17 +429,17 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (data.block[0] > size) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		size = data.block[0];
@@ -458,18 +458,18 @@ namespace abc {
 		if (_addr == addr) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::debug, 0x106ff, "gpio_smbus::ensure_address() Skip.");
-
-				return true;
 			}
+
+			return true;
 		}
 
 		long laddr = addr;
 		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		_addr = addr;
-- 
2.43.0


From 7d8d51c5d701bf7387e9a2011d434c8ba1a7a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 51/87] fix: an SMBus device that can not be asked is closed

---
 src/x/gpio_smbus.x.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 4242ebb..dd66e70 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -98,6 +98,9 @@ namespace abc {
 		}
 
 		if (safe_ioctl(I2C_FUNCS, &_functionality) < 0) {
+			close(_fd);
+			_fd = -1;
+
 			throw exception<std::logic_error, Log>("gpio_smbus::gpio_smbus() I2C_FUNCS failed", 0x106df);
 		}
 
@@ -490,7 +493,8 @@ namespace abc {
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-			return ENOLCK;
+			errno = ENOLCK;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From dfdf236117fd4f51fb4b7b0b8a5cb86a16a68058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 52/87] fix: SMBus address 0 is targeted like any other

---
 src/i/gpio_smbus.i.h | 6 ++++++
 src/x/gpio_smbus.x.h | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index 4cb6f20..aa30a7e 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -56,6 +56,12 @@ namespace abc {
 	 */
 	template <typename Log = null_log>
 	class gpio_smbus {
+
+		/**
+		 * @brief						Not a target address. Nothing has been targeted yet.
+		 */
+		static constexpr gpio_smbus_address_t invalid_address = 0xff;
+
 	public:
 		/**
 		 * @brief						Constructor. Identifies the SMBus device by number - `/dev/i2c-0`.
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index dd66e70..cc88675 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -43,7 +43,7 @@ namespace abc {
 	inline gpio_smbus<Log>::gpio_smbus(int dev_i2c_pos, Log* log)
 		: _fd(-1)
 		, _functionality(0)
-		, _addr(0)
+		, _addr(invalid_address)
 		, _log(log) {
 		char path[gpio_max_path];
 		std::snprintf(path, gpio_max_path, "/dev/i2c-%d", dev_i2c_pos);
@@ -56,7 +56,7 @@ namespace abc {
 	inline gpio_smbus<Log>::gpio_smbus(const char* path, Log* log)
 		: _fd(-1)
 		, _functionality(0)
-		, _addr(0)
+		, _addr(invalid_address)
 		, _log(log) {
 		init(path);
 	}
-- 
2.43.0


From cdeaf63a6d425e697c0fffd0965ca9e9dfc22131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 53/87] fix: threads that share an SMBus do not target each
 other's devices

---
 src/i/gpio_smbus.i.h | 10 ++++-
 src/x/gpio_smbus.x.h | 96 +++++++++++---------------------------------
 2 files changed, 32 insertions(+), 74 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index aa30a7e..8c813ab 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -193,7 +193,15 @@ namespace abc {
 
 	private:
 		/**
-		 * @brief						Ensure the SMBus is currently targeting the target's address.
+		 * @brief						Targets the address, and makes the transfer, while a mutex is being acquired, so that no other thread could target another address in between.
+		 * @param addr					Target's address. 
+		 * @param msg					Transfer.
+		 * @return						`true` = success. `false` = error.
+		 */
+		bool transfer(gpio_smbus_address_t addr, i2c_smbus_ioctl_data& msg) noexcept;
+
+		/**
+		 * @brief						Ensure the SMBus is currently targeting the target's address. Must be called while the mutex is acquired.
 		 * @param addr					Target's address. 
 		 * @return						`true` = success. `false` = error.
 		 */
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index cc88675..35aae5b 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,20 +130,12 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_nodata(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_ioctl_data msg{ };
 		msg.read_write = I2C_SMBUS_WRITE;
 		msg.command = reg;
 		msg.size = I2C_SMBUS_BYTE;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -161,14 +153,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t byte) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.byte = byte;
 
@@ -178,7 +162,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BYTE_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -196,14 +180,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.word = target.requires_byte_swap() ? swap_bytes(word) : word;
 
@@ -213,7 +189,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_WORD_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -239,14 +215,6 @@ namespace abc {
 			return false;
 		}
 
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.block[0] = static_cast<std::uint8_t>(size);
 		std::memmove(&data.block[1], block, size);
@@ -257,7 +225,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BLOCK_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -275,14 +243,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 
 		i2c_smbus_ioctl_data msg{ };
@@ -290,7 +250,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BYTE;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -340,14 +300,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t& byte) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 
 		i2c_smbus_ioctl_data msg{ };
@@ -356,7 +308,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BYTE_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -376,14 +328,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 
 		i2c_smbus_ioctl_data msg{ };
@@ -392,7 +336,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_WORD_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -412,14 +356,6 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept {
-		if (!ensure_address(target.address())) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-			}
-
-			return false;
-		}
-
 		i2c_smbus_data data{ };
 		data.block[0] = static_cast<std::uint8_t>(size);
 
@@ -429,7 +365,7 @@ namespace abc {
 		msg.size = I2C_SMBUS_BLOCK_DATA;
 		msg.data = &data;
 
-		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
+		if (!transfer(target.address(), msg)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
 			}
@@ -456,6 +392,20 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline bool gpio_smbus<Log>::transfer(gpio_smbus_address_t addr, i2c_smbus_ioctl_data& msg) noexcept {
+		try {
+			std::lock_guard<std::mutex> lock(_ioctl_mutex);
+
+			return ensure_address(addr) && ioctl(_fd, I2C_SMBUS, &msg) >= 0;
+		}
+		catch (...) {
+			errno = ENOLCK;
+			return false;
+		}
+	}
+
+
 	template <typename Log>
 	inline bool gpio_smbus<Log>::ensure_address(gpio_smbus_address_t addr) noexcept {
 		if (_addr == addr) {
@@ -467,7 +417,7 @@ namespace abc {
 		}
 
 		long laddr = addr;
-		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
+		if (ioctl(_fd, I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
 			}
-- 
2.43.0


From 28d6bf223f9063125a6f52e310e47d85f2cb7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 54/87] fix: a PWM frequency does not divide by zero

---
 src/i/gpio_smbus_pwm.i.h |  2 +-
 src/x/gpio_smbus_pwm.x.h | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/i/gpio_smbus_pwm.i.h b/src/i/gpio_smbus_pwm.i.h
index 781097a..a345243 100644
--- a/src/i/gpio_smbus_pwm.i.h
+++ b/src/i/gpio_smbus_pwm.i.h
@@ -110,7 +110,7 @@ namespace abc {
 	private:
 		/**
 		 * @brief						Calculates ARR from a PWM period.
-		 * @details						Returns a number that is close to sqrt(period) and is round to 1000.
+		 * @details						Returns a number that is close to sqrt(period) and is round to 1000, unless the period is too short.
 		 * @param						PWM period.
 		 */
 		static gpio_smbus_clock_frequency_t get_autoreload_from_period(gpio_smbus_clock_frequency_t period) noexcept;
diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 76b264f..6a73a18 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -63,6 +63,10 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() smbus == nullptr", 0x10706);
 		}
 
+		if (frequency == 0 || frequency > smbus_target.clock_frequency()) {
+			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() frequency", 0x107f7);
+		}
+
 		// Adjust min/max_pulse_width to lock frequency.
 		if (_max_pulse_width != 0) {
 			if (log != nullptr) {
@@ -173,7 +177,13 @@ namespace abc {
 			autoreload_bit_count++;
 		}
 
-		return static_cast<gpio_smbus_clock_frequency_t>(((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL);
+		std::uint64_t autoreload = ((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL;
+		if (autoreload == 0) {
+			// The period is too short for rounding to 1000.
+			autoreload = 1ULL << autoreload_bit_count;
+		}
+
+		return static_cast<gpio_smbus_clock_frequency_t>(autoreload < period ? autoreload : period);
 	}
 
 
-- 
2.43.0


From 6f4e98919b36514ac939b76b3a56dd07260ef305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 55/87] fix: a chip that refuses a line is closed

---
 src/x/gpio_line.x.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 845c69e..b450c5e 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -73,6 +73,7 @@ namespace abc {
 
 		int ret = ioctl(fd, gpio_ioctl::get_line, &line_request);
 		if (ret < 0) {
+			close(fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() ioctl() < 0", 0x106cb);
 		}
 
-- 
2.43.0


From f00c607c75f46ad57f87263870668fdde2b782e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 56/87] fix: a GPIO line that was moved from leaves its
 descriptor to the new one

---
 src/i/gpio_line.i.h | 2 +-
 src/x/gpio_line.x.h | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_line.i.h b/src/i/gpio_line.i.h
index 1452d49..f5703ff 100644
--- a/src/i/gpio_line.i.h
+++ b/src/i/gpio_line.i.h
@@ -53,7 +53,7 @@ namespace abc {
 		/**
 		 * @brief			Move constructor.
 		 */
-		gpio_line(gpio_line<Log>&& other) noexcept = default;
+		gpio_line(gpio_line<Log>&& other) noexcept;
 
 		/**
 		 * @brief			Deleted.
diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index b450c5e..d2cfd9b 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -89,6 +89,14 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline gpio_line<Log>::gpio_line(gpio_line<Log>&& other) noexcept
+		: _fd(other._fd)
+		, _log(other._log) {
+		other._fd = -1;
+	}
+
+
 	template <typename Log>
 	inline gpio_line<Log>::~gpio_line() noexcept {
 		if (_fd >= 0) {
-- 
2.43.0


From 4890fd27374052be203edcdc2e308fe462d270ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 57/87] fix: a motion channel that could not be read has no
 random measurement

---
 src/x/gpio_smbus_motion.x.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 80884b6..c5e6fd4 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -129,38 +129,45 @@ namespace abc {
 		std::uint16_t temp_ui16;
 
 		if ((mask & gpio_smbus_motion_channel::accel_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16);
-			measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16)) {
+				measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16);
-			measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16)) {
+				measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16);
-			measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16)) {
+				measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16);
-			measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16)) {
+				measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16);
-			measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16)) {
+				measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16);
-			measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16)) {
+				measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::temperature) != 0) {
-			_smbus->get_word(_smbus_target, reg_temperature, temp_ui16);
-			measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_temperature, temp_ui16)) {
+				measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 719a830ddff001e592ad432057825960ed54f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 58/87] fix: a motion sensor calibrates without a log

---
 src/x/gpio_smbus_motion.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index c5e6fd4..c93adbf 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -82,8 +82,10 @@ namespace abc {
 				continue;
 			}
 
-			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-				mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			if (_log != nullptr) {
+				_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
+					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			}
 
 			measurements.accel_x += temp.accel_x;
 			measurements.accel_y += temp.accel_y;
-- 
2.43.0


From d1dbc9b42de7d7c9cb343047b85d0b9787b69e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 59/87] fix: a motion sensor's calibration does not overflow

---
 src/x/gpio_smbus_motion.x.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index c93adbf..7d40417 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -68,7 +68,13 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motion<Log>::calibrate(gpio_smbus_motion_channel_t mask) noexcept {
-		gpio_smbus_motion_measurements measurements{ };
+		// A sum of measurements does not fit in a measurement.
+		std::int32_t sum_accel_x = 0;
+		std::int32_t sum_accel_y = 0;
+		std::int32_t sum_accel_z = 0;
+		std::int32_t sum_gyro_x = 0;
+		std::int32_t sum_gyro_y = 0;
+		std::int32_t sum_gyro_z = 0;
 
 		constexpr int reps_skip = 5;
 		constexpr int reps_take = 20;
@@ -87,22 +93,22 @@ namespace abc {
 					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
 			}
 
-			measurements.accel_x += temp.accel_x;
-			measurements.accel_y += temp.accel_y;
-			measurements.accel_z += temp.accel_z;
+			sum_accel_x += temp.accel_x;
+			sum_accel_y += temp.accel_y;
+			sum_accel_z += temp.accel_z;
 
-			measurements.gyro_x += temp.gyro_x;
-			measurements.gyro_y += temp.gyro_y;
-			measurements.gyro_z += temp.gyro_z;
+			sum_gyro_x += temp.gyro_x;
+			sum_gyro_y += temp.gyro_y;
+			sum_gyro_z += temp.gyro_z;
 		}
 
-		_calibration.accel_x = measurements.accel_x / reps_take;
-		_calibration.accel_y = measurements.accel_y / reps_take;
-		_calibration.accel_z = measurements.accel_z / reps_take;
+		_calibration.accel_x = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_x / reps_take);
+		_calibration.accel_y = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_y / reps_take);
+		_calibration.accel_z = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_z / reps_take);
 
-		_calibration.gyro_x = measurements.gyro_x / reps_take;
-		_calibration.gyro_y = measurements.gyro_y / reps_take;
-		_calibration.gyro_z = measurements.gyro_z / reps_take;
+		_calibration.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_x / reps_take);
+		_calibration.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_y / reps_take);
+		_calibration.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_z / reps_take);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074f, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-- 
2.43.0


From bb3c69c4b9e011e0ef84f630dd11a9b6b782937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 60/87] fix: a grayscale value is not taken from another sensor

---
 src/x/gpio_smbus_grayscale.x.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/x/gpio_smbus_grayscale.x.h b/src/x/gpio_smbus_grayscale.x.h
index 3b38dbd..3cc6c42 100644
--- a/src/x/gpio_smbus_grayscale.x.h
+++ b/src/x/gpio_smbus_grayscale.x.h
@@ -61,14 +61,17 @@ namespace abc {
 	inline void gpio_smbus_grayscale<Log>::get_values(std::uint16_t& left, std::uint16_t& center, std::uint16_t& right) noexcept {
 		static constexpr std::uint16_t zero = 0x0000;
 
-		_smbus->put_word(_smbus_target, _reg_left, zero);
-		_smbus->get_noreg_2(_smbus_target, left);
+		if (_smbus->put_word(_smbus_target, _reg_left, zero)) {
+			_smbus->get_noreg_2(_smbus_target, left);
+		}
 
-		_smbus->put_word(_smbus_target, _reg_center, zero);
-		_smbus->get_noreg_2(_smbus_target, center);
+		if (_smbus->put_word(_smbus_target, _reg_center, zero)) {
+			_smbus->get_noreg_2(_smbus_target, center);
+		}
 
-		_smbus->put_word(_smbus_target, _reg_right, zero);
-		_smbus->get_noreg_2(_smbus_target, right);
+		if (_smbus->put_word(_smbus_target, _reg_right, zero)) {
+			_smbus->get_noreg_2(_smbus_target, right);
+		}
 	}
 
 
-- 
2.43.0


From 325baf3340d5f20a7900a52594cc121a72c2350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 61/87] fix: an ultrasonic sensor uses the maximum distance of
 every call

---
 src/x/gpio_ultrasonic.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_ultrasonic.x.h b/src/x/gpio_ultrasonic.x.h
index 06a82e2..e7efb5c 100644
--- a/src/x/gpio_ultrasonic.x.h
+++ b/src/x/gpio_ultrasonic.x.h
@@ -52,7 +52,7 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline std::size_t gpio_ultrasonic<DistanceScale, Log>::measure_distance(std::size_t max_distance) const noexcept {
-		static const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
+		const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
 
 		// Clear and send a pulse.
 		_trigger_line.put_level(gpio_level::low, microseconds(10));
-- 
2.43.0


From bc9dfcb12c9ec6d248cef79da3cb384996b9080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 62/87] fix: a PWM emulator that can not be made does not end
 the process

---
 src/i/gpio_pwm_base.i.h     |  4 ++--
 src/x/gpio_pwm_emulator.x.h | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/i/gpio_pwm_base.i.h b/src/i/gpio_pwm_base.i.h
index fd521ad..313e7f0 100644
--- a/src/i/gpio_pwm_base.i.h
+++ b/src/i/gpio_pwm_base.i.h
@@ -50,11 +50,11 @@ namespace abc {
 
 
 	/**
-	 * @brief			Returns the duration of the PWM period in `gpio_pwm_duration` units based on the given frequency.
+	 * @brief			Returns the duration of the PWM period in `gpio_pwm_duration` units based on the given frequency. 0, if the frequency is 0.
 	 * @param frequency	Frequency in Hz (ticks per second).
 	 */
 	constexpr gpio_pwm_duration gpio_pwm_period(gpio_pwm_pulse_frequency_t frequency) noexcept {
-		return gpio_pwm_duration(gpio_pwm_duration::period::den / frequency);
+		return gpio_pwm_duration(frequency != 0 ? gpio_pwm_duration::period::den / frequency : 0);
 	}
 
 
diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e1b7739..8172a35 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -46,12 +46,15 @@ namespace abc {
 		, _period(gpio_pwm_period(frequency))
 		, _duty_cycle(0)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
 
+		if (frequency == 0) {
+			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() frequency", 0x107f8);
+		}
+
 		if (min_pulse_width > max_pulse_width) {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() min_pulse_width", 0x106cf);
 		}
@@ -60,6 +63,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() max_pulse_width", 0x106d0);
 		}
 
+		// Start the thread once the parameters are known to be valid. std::~thread() terminates the process if the thread is running.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106d1, "gpio_pwm_emulator::gpio_pwm_emulator() Done.");
 		}
-- 
2.43.0


From c8cb54eea9410445ca86ae4f3f69b4ebae400eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 63/87] fix: a motion tracker without a sensor does not end the
 process

---
 src/x/gpio_smbus_motion_tracker.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 0b12045..020d645 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -43,8 +43,7 @@ namespace abc {
 		, _speed(0)
 		, _run(false)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10753, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Start.");
 		}
@@ -53,6 +52,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() motion", 0x10754);
 		}
 
+		// Start the thread once the parameters are known to be valid. std::~thread() terminates the process if the thread is running.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10755, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Done.");
 		}
-- 
2.43.0


From 7179409f724707b4f53ce28436758868013caa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 64/87] fix: a motion tracker does not miss that it was started
 or ended

---
 src/x/gpio_smbus_motion_tracker.x.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 020d645..807a92f 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -67,7 +67,10 @@ namespace abc {
 			_log->put_any(category::abc::gpio, severity::abc::optional, 0x10756, "gpio_smbus_motion_tracker::~gpio_smbus_motion_tracker() Start.");
 		}
 
-		_quit = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_quit = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -89,7 +92,10 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::start() {
-		_run = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_run = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -193,7 +199,7 @@ namespace abc {
 				// Sleep until the owning instance fires the condition.
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait(lock);
+					this_ptr->_control_condition.wait(lock, [this_ptr]() -> bool { return this_ptr->_quit || this_ptr->_run; });
 
 					quit = this_ptr->_quit;
 					run = this_ptr->_run;
-- 
2.43.0


From 463ac7140a626c175a7860ce3936af95529a57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 65/87] fix: a moved input stream keeps its count

---
 src/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index fc0626e..1dbaee1 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -136,7 +136,8 @@ namespace abc {
 
 
 	inline istream::istream(istream&& other)
-		: base(std::move(other)) {
+		: base(std::move(other))
+		, _gcount(other._gcount) {
 	}
 
 
-- 
2.43.0


From 23444d4ef1553a165a97caf446f614eded4d5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 66/87] fix: tictactoe's fast engine finds a move when all
 moves left have the lowest score

---
 samples/tictactoe/game.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index a733686..078b805 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -353,11 +353,13 @@ namespace abc { namespace samples {
 			score_calc_t max_count = 0;
 			score_calc_t min_count = 0;
 			score_calc_t none_count = 0;
+			score_calc_t valid_count = 0;
 			score_calc_t score_sum = 0;
 
 			for (move_t r = 0; r < row_count; r++) {
 				for (move_t c = 0; c < col_count; c++) {
 					if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none) {
+						valid_count++;
 						score_calc_t curr_score = itr->value[r][c];
 
 						if (curr_score == score::max) {
@@ -392,10 +394,18 @@ namespace abc { namespace samples {
 			}
 
 			// If all the scores are min, pick one of them.
-			else if (min_count == row_count * col_count) {
+			else if (min_count > 0 && min_count == valid_count) {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
-				return move{ rand_i / (score_calc_t)col_count, rand_i % (score_calc_t)col_count };
+				for (move_t r = 0; r < row_count; r++) {
+					for (move_t c = 0; c < col_count; c++) {
+						if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none) {
+							if (--rand_i == 0) {
+								return move{ r, c };
+							}
+						}
+					}
+				}
 			}
 
 			// Make a weighted pick.
-- 
2.43.0


From 1ed956338a953aac058c09890b8b039909df042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 67/87] fix: connect4's fast engine does not pick a full column
 when all moves left have the lowest score

---
 samples/connect4/game.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index ed63167..ffa3f9e 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -595,14 +595,18 @@ namespace abc { namespace samples {
 			}
 
 			// If all the scores are min, pick one of them.
-			else if (min_count == valid_count) {
+			else if (min_count > 0 && min_count == valid_count) {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
-				count_t c = static_cast<count_t>(rand_i % (score_calc_t)col_count);
-				count_t r = _game->board().col_size(c);
-				move mv{ r, c };
+				for (count_t c = 0; c < col_count; c++) {
+					move mv{ _game->board().col_size(c), c };
 
-				return mv;
+					if (mv.is_valid()) {
+						if (--rand_i == 0) {
+							return mv;
+						}
+					}
+				}
 			}
 
 			// Make a weighted pick.
-- 
2.43.0


From fa6446d8ce1afaa4889a5fed85f22fc9fe24a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 68/87] fix: send the error response although the request left
 the stream unusable

---
 src/endpoint.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 55724ce..deaacfa 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -163,7 +163,6 @@ namespace abc {
 		// A request that fails must neither end the process nor hold up a shutdown.
 		try {
 			if (!http.http_request_istream<Log>::good()) {
-				http.http_response_ostream<Log>::reset();
 				send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request line was not understood.", 0x107f4);
 			}
 			else if (is_file_request(method, resource)) {
@@ -318,6 +317,9 @@ namespace abc {
 		char content_length[Limits::fsize_size + 1];
 		std::snprintf(content_length, Limits::fsize_size, "%zu", std::strlen(body));
 
+		// The response must go out even if the request could not be read in full.
+		http.http_response_ostream<Log>::reset();
+
 		http.put_protocol(protocol::HTTP_11);
 		http.put_status_code(status_code);
 		http.put_reason_phrase(reason_phrase);
-- 
2.43.0


From f996101c63cccbf1843fc9c19a1b0398aec79b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 69/87] fix: samples: don't overflow the buffer of a player
 type in a request for a game

---
 samples/connect4/game.h  | 4 +++-
 samples/tictactoe/game.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index ffa3f9e..4a6c686 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1142,7 +1142,9 @@ namespace abc { namespace samples {
 						return false;
 					}
 
-					std::strcpy(players[i], token->value.string);
+					// A longer string is not a valid player type anyway.
+					std::strncpy(players[i], token->value.string, sizeof(players[i]) - 1);
+					players[i][sizeof(players[i]) - 1] = '\0';
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::debug, 0x10638, "players[%zu]='%s'", i, players[i]);
 					}
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 078b805..a4f6b11 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -929,7 +929,9 @@ namespace abc { namespace samples {
 						return false;
 					}
 
-					std::strcpy(players[i], token->value.string);
+					// A longer string is not a valid player type anyway.
+					std::strncpy(players[i], token->value.string, sizeof(players[i]) - 1);
+					players[i][sizeof(players[i]) - 1] = '\0';
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::debug, 0x105cb, "players[%zu]='%s'", i, players[i]);
 					}
-- 
2.43.0


From 2992a2a6d78ae3d72497272ddcf10619b229163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 70/87] fix: samples: respond to a request for an unknown
 resource of a game

---
 samples/connect4/game.h  | 4 ++++
 samples/tictactoe/game.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 4a6c686..a94aaf1 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -954,6 +954,10 @@ namespace abc { namespace samples {
 			else if (std::sscanf(resource_games, "/%u/moves?since=%u", &game_id, &since_move_i) == 2) {
 				get_moves(http, method, static_cast<endpoint_game_id_t>(game_id), since_move_i);
 			}
+			else {
+				// 404
+				base::send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "The requested resource was not found.", 0x107fb);
+			}
 		}
 	}
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index a4f6b11..2e3105a 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -741,6 +741,10 @@ namespace abc { namespace samples {
 			else if (std::sscanf(resource_games, "/%u/moves?since=%u", &game_id, &since_move_i) == 2) {
 				get_moves(http, method, static_cast<endpoint_game_id_t>(game_id), since_move_i);
 			}
+			else {
+				// 404
+				base::send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "The requested resource was not found.", 0x107f9);
+			}
 		}
 	}
 
-- 
2.43.0


From 8024dcff7c24162cfad1a43324a28999d1dae607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 71/87] fix: samples: respond to a request that has no
 Content-Type

---
 samples/connect4/game.h  | 5 +++++
 samples/tictactoe/game.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index a94aaf1..1b5a011 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1678,6 +1678,11 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!has_content_type_json) {
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x107fc);
+		}
+
 		return has_content_type_json;
 	}
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 2e3105a..056c08f 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1465,6 +1465,11 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!has_content_type_json) {
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x107fa);
+		}
+
 		return has_content_type_json;
 	}
 
-- 
2.43.0


From 22a981e0afbda0bf97abedbf78db847c9414a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 72/87] fix: samples: respond with the number of the accepted
 move, not of the engine's

---
 samples/connect4/game.h  | 5 ++++-
 samples/tictactoe/game.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 1b5a011..f7884d5 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1420,6 +1420,9 @@ namespace abc { namespace samples {
 					return false;
 				}
 
+				// Once the move is accepted, an engine may make the next one at any time.
+				unsigned move_i = _games[game_i].board().move_count();
+
 				if (!_games[game_i].accept_move(player_id, mv)) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1065b, "Resource error: Move not accepted. move={ %u, %u }", mv.row, mv.col);
@@ -1438,7 +1441,7 @@ namespace abc { namespace samples {
 
 				json.put_begin_object();
 					json.put_property("i");
-					json.put_number(_games[game_i].board().move_count() - 1);
+					json.put_number(move_i);
 
 					if (_games[game_i].board().is_game_over()) {
 						json.put_property("winner");
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 056c08f..57c774a 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1207,6 +1207,9 @@ namespace abc { namespace samples {
 					return false;
 				}
 
+				// Once the move is accepted, an engine may make the next one at any time.
+				unsigned move_i = _games[game_i].board().move_count();
+
 				if (!_games[game_i].accept_move(player_id, mv)) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105ee, "Resource error: Move not accepted. move={ %u, %u }", mv.row, mv.col);
@@ -1225,7 +1228,7 @@ namespace abc { namespace samples {
 
 				json.put_begin_object();
 					json.put_property("i");
-					json.put_number(_games[game_i].board().move_count() - 1);
+					json.put_number(move_i);
 
 					if (_games[game_i].board().is_game_over()) {
 						json.put_property("winner");
-- 
2.43.0


From 7f5ff87c3a2d2a4fd9f568b55447c48c56074405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 73/87] fix: samples: respond to a request whose headers could
 not be read

---
 samples/basic/equations.h | 8 +++++++-
 samples/connect4/game.h   | 8 +++++++-
 samples/tictactoe/game.h  | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index a4acea7..45c8a90 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -90,7 +90,7 @@ namespace abc { namespace samples {
 
 		// Read all headers
 		bool has_valid_content_type = false;
-		while (true) {
+		while (http.http_request_istream<Log>::good()) {
 			char header[abc::size::k1 + 1];
 
 			http.get_header_name(header, sizeof(header));
@@ -122,6 +122,12 @@ namespace abc { namespace samples {
 			}
 		}
 
+		// If the headers could not be read in full, return 400.
+		if (!http.http_request_istream<Log>::good()) {
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers were not understood.", 0x107ff);
+			return;
+		}
+
 		// Here's where we store the parsed JSON input.
 		bool has_a = false;
 		double a[2][2];
diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index f7884d5..0cfd98f 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1638,7 +1638,7 @@ namespace abc { namespace samples {
 		bool has_content_type_json = false;
 
 		// Read all headers
-		while (true) {
+		while (http.http_request_istream<Log>::good()) {
 			char header[abc::size::k1 + 1];
 
 			// No more headers
@@ -1681,6 +1681,12 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!http.http_request_istream<Log>::good()) {
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers were not understood.", 0x107fe);
+			return false;
+		}
+
 		if (!has_content_type_json) {
 			// 400
 			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x107fc);
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 57c774a..e0b25fb 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1425,7 +1425,7 @@ namespace abc { namespace samples {
 		bool has_content_type_json = false;
 
 		// Read all headers
-		while (true) {
+		while (http.http_request_istream<Log>::good()) {
 			char header[abc::size::k1 + 1];
 
 			// No more headers
@@ -1468,6 +1468,12 @@ namespace abc { namespace samples {
 			}
 		}
 
+		if (!http.http_request_istream<Log>::good()) {
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers were not understood.", 0x107fd);
+			return false;
+		}
+
 		if (!has_content_type_json) {
 			// 400
 			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x107fa);
-- 
2.43.0


From 8f8086341e570e1aba42c0550b27bb166f1081f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 74/87] fix: samples: equations 0x + 0y = b have no solution
 unless b is 0

---
 samples/basic/equations.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index 45c8a90..4f34fc6 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -222,6 +222,9 @@ namespace abc { namespace samples {
 		double det_x = (b[0] * a[1][1]) - (a[0][1] * b[1]);
 		double det_y = (a[0][0] * b[1]) - (b[0] * a[1][0]);
 
+		// When there is nothing but zeros in a, all determinants are 0 regardless of b.
+		bool is_a_zero = a[0][0] == 0 && a[0][1] == 0 && a[1][0] == 0 && a[1][1] == 0;
+
 		std::int32_t status = -1;
 		double x = 0;
 		double y = 0;
@@ -232,7 +235,7 @@ namespace abc { namespace samples {
 			x = det_x / det;
 			y = det_y / det;
 		}
-		else if (det_x != 0 || det_y != 0) {
+		else if (det_x != 0 || det_y != 0 || (is_a_zero && (b[0] != 0 || b[1] != 0))) {
 			// 0 solutions
 			status = 0;
 		}
-- 
2.43.0


From 78ca013d0ae3c8a209ec90c08d32c41d82ed223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:09 +0000
Subject: [PATCH 75/87] fix: samples: don't send a result that JSON cannot
 represent

---
 samples/basic/equations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index 4f34fc6..9b3d243 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -23,6 +23,8 @@ SOFTWARE.
 */
 
 
+#include <cmath>
+
 #include "../../src/ascii.h"
 #include "../../src/endpoint.h"
 #include "../../src/http.h"
@@ -244,6 +246,12 @@ namespace abc { namespace samples {
 			status = 2;
 		}
 
+		// JSON has no way to represent an infinity or a NaN.
+		if (!std::isfinite(x) || !std::isfinite(y)) {
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The numbers in the problem are out of range.", 0x10800);
+			return;
+		}
+
 		// Write the JSON to a char buffer, so we can calculate the Content-Length before we start sending the body.
 		char body[abc::size::k1 + 1];
 		abc::buffer_streambuf sb(nullptr, 0, 0, body, 0, sizeof(body));
-- 
2.43.0


From cced7aa7aacfe43c8e1d19dec7317b9baf9c0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 76/87] fix: samples: the car responds to a request whose
 headers could not be read

---
 samples/picar_4wd/car.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index e2ee38c..1d8fa08 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -649,7 +649,7 @@ namespace abc { namespace samples {
 		bool has_content_type_json = false;
 
 		// Read all headers
-		while (true) {
+		while (http.http_request_istream<Log>::good()) {
 			char header[abc::size::k1 + 1];
 
 			// No more headers
@@ -692,7 +692,19 @@ namespace abc { namespace samples {
 			}
 		}
 
-		return has_content_type_json;
+		if (!http.http_request_istream<Log>::good()) {
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The headers were not understood.", 0x10801);
+			return false;
+		}
+
+		if (!has_content_type_json) {
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "'application/json' is the only supported Content-Type.", 0x10802);
+			return false;
+		}
+
+		return true;
 	}
 
 
-- 
2.43.0


From 1ffeb7a4d383805a420de8e637e35be128d945a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 77/87] fix: samples: stop the car before its direction is
 changed

---
 samples/picar_4wd/car.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 1d8fa08..7841a01 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -245,7 +245,7 @@ namespace abc { namespace samples {
 		}
 
 		// If changing direction, stop the vehicle and reset the motion tracker.
-		if (power * _power < 0) {
+		if ((power >= 0) != _forward) {
 			std::int32_t turn = _turn;
 
 			_power = 0;
-- 
2.43.0


From 65fc8342b495aa2de8d6ecdad496204dcfb8b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 78/87] fix: samples: stop turning when an obstacle stops the
 car

---
 samples/picar_4wd/car.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 7841a01..c48d030 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -788,6 +788,10 @@ namespace abc { namespace samples {
 			}
 
 			_power = power;
+			if (power == 0) {
+				_turn = 0;
+			}
+
 			drive_verified();
 		}
 	}
-- 
2.43.0


From 92c6d42f0bdceb0c17e2368d4497b8f7c9ae4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:04 +0000
Subject: [PATCH 79/87] fix: samples: drive the car for one request at a time

---
 samples/picar_4wd/car.h   | 10 ++++++++++
 samples/picar_4wd/car.i.h |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index c48d030..056fa5c 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -244,6 +244,8 @@ namespace abc { namespace samples {
 			return;
 		}
 
+		std::unique_lock<std::mutex> lock(_drive_mutex);
+
 		// If changing direction, stop the vehicle and reset the motion tracker.
 		if ((power >= 0) != _forward) {
 			std::int32_t turn = _turn;
@@ -282,6 +284,8 @@ namespace abc { namespace samples {
 		// 200
 		char body[abc::size::_256 + 1];
 		std::snprintf(body, sizeof(body), "power: forward=%d, power=%d, turn=%d", (int)_forward, (int)_power, (int)_turn);
+		lock.unlock();
+
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, body, 0x10681);
 	}
 
@@ -348,12 +352,16 @@ namespace abc { namespace samples {
 			return;
 		}
 
+		std::unique_lock<std::mutex> lock(_drive_mutex);
+
 		_turn = turn;
 		drive_verified();
 
 		// 200
 		char body[abc::size::_256 + 1];
 		std::snprintf(body, sizeof(body), "turn: power=%d, turn=%d", (int)_power, (int)_turn);
+		lock.unlock();
+
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, body, 0x10688);
 	}
 
@@ -764,6 +772,8 @@ namespace abc { namespace samples {
 
 	template <typename Limits, typename Log>
 	inline void car_endpoint<Limits, Log>::auto_limit_power() noexcept {
+		std::lock_guard<std::mutex> lock(_drive_mutex);
+
 		std::size_t distance_cm = _obstacle_cm.load();
 		std::int32_t power = _power;
 
diff --git a/samples/picar_4wd/car.i.h b/samples/picar_4wd/car.i.h
index 8babbca..8c836a7 100644
--- a/samples/picar_4wd/car.i.h
+++ b/samples/picar_4wd/car.i.h
@@ -30,6 +30,7 @@ SOFTWARE.
 #include <chrono>
 #include <ratio>
 #include <thread>
+#include <mutex>
 #include <atomic>
 
 #include "../../src/log.h"
@@ -116,6 +117,7 @@ namespace abc { namespace samples {
 		abc::gpio_smbus_motion<Log>								_motion;
 		abc::gpio_smbus_motion_tracker<std::centi, Log>			_motion_tracker;
 
+		std::mutex												_drive_mutex;	// Guards _forward, _power, and _turn, and what drives the wheels.
 		bool													_forward;
 		std::int32_t											_power;
 		std::int32_t											_turn;
-- 
2.43.0


From 3bb6a330a5c8dc9deace8f0c96b7714e2b2dad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 80/87] fix: samples: drive no wheel after the car was reset
 for a shutdown

---
 samples/picar_4wd/car.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 056fa5c..2db1be9 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -517,8 +517,13 @@ namespace abc { namespace samples {
 			return;
 		}
 
-		base::set_shutdown_requested();
-		_hat.reset();
+		{
+			std::lock_guard<std::mutex> lock(_drive_mutex);
+
+			base::set_shutdown_requested();
+			_hat.reset();
+		}
+
 		_auto_thread.join();
 
 		// 200
@@ -528,6 +533,11 @@ namespace abc { namespace samples {
 
 	template <typename Limits, typename Log>
 	inline void car_endpoint<Limits, Log>::drive_verified() noexcept {
+		// Once the hat has been reset for a shutdown, the wheels must stay stopped.
+		if (base::is_shutdown_requested()) {
+			return;
+		}
+
 		std::int32_t left_power;
 		std::int32_t right_power;
 		get_side_powers(left_power, right_power);
-- 
2.43.0


From bcbff0298a480ba4e63dc67b8823c81e1f209692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:49 +0000
Subject: [PATCH 81/87] fix: a moved stream keeps its state

---
 src/stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.h b/src/stream.h
index 1dbaee1..37212fb 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -40,7 +40,10 @@ namespace abc {
 	template <typename Stream>
 	inline stream<Stream>::stream(stream&& other)
 		: base(std::move(other)) {
+		// Setting the buffer clears the state, which moves, too.
+		std::ios_base::iostate state = base::rdstate();
 		base::rdbuf(other.rdbuf());
+		base::clear(state);
 	}
 
 
-- 
2.43.0


From 2405e4f5a7217ce3b301a9dc4db4ce1f0916736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 82/87] fix: test_suite: any exception fails its test only

---
 src/test.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/test.h b/src/test.h
index 3f3c419..a947e93 100644
--- a/src/test.h
+++ b/src/test.h
@@ -334,6 +334,12 @@ namespace abc {
 						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s %s", color::begin, color::red, color::end, ex.what());
 					}
 				}
+				catch(...) {
+					method_passed = false;
+					if (log != nullptr) {
+						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s %s", color::begin, color::red, color::end, "(unknown)");
+					}
+				}
 
 				if (method_passed) {
 					if (log != nullptr) {
-- 
2.43.0


From 533a7fed5027abb212bc97631a798135174e7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 83/87] fix: are_equal of blobs logs the last line, too

---
 src/test.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/test.h b/src/test.h
index a947e93..19b4577 100644
--- a/src/test.h
+++ b/src/test.h
@@ -246,13 +246,11 @@ namespace abc {
 		bool are_equal = std::memcmp(actual, expected, size) == 0;
 
 		std::size_t offset = 0;
-		for (;;) {
+		while (offset < size) {
 			std::size_t original_offset = offset;
 
 			line_ostream<size::k2> line_actual;
-			if (line_actual.put_binary(actual, size, offset) == 0) {
-				break;
-			};
+			line_actual.put_binary(actual, size, offset);
 
 			line_ostream<size::k2> line_expected;
 			line_expected.put_binary(expected, size, original_offset);
-- 
2.43.0


From 86c0b338727eef6e45faae2e12c6205108d18b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:41 +0000
Subject: [PATCH 84/87] fix: vmem_string_streambuf reports what could not be
 stored

---
 src/x/vmem_string.x.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 1e72efb..4153433 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -90,23 +90,26 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		if (base::pptr() != &_put_ch) {
-			_string->push_back(_put_ch);
+		if (sync() != 0) {
+			return std::char_traits<Char>::eof();
 		}
 
 		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
-			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+			if (!_string->insert(_string->end(), std::char_traits<Char>::to_char_type(ch)).can_deref()) {
+				return std::char_traits<Char>::eof();
+			}
 		}
 
-		base::setp(&_put_ch, &_put_ch + 1);
-
 		return std::char_traits<Char>::not_eof(ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
 	inline int vmem_basic_string_streambuf<Char, Pool, Log>::sync() {
 		if (base::pptr() != &_put_ch) {
-			_string->push_back(_put_ch);
+			// A char that could not be stored remains.
+			if (!_string->insert(_string->end(), _put_ch).can_deref()) {
+				return -1;
+			}
 		}
 
 		base::setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From eb5c785efdf1e248e06984299fa119af14698a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:47 +0000
Subject: [PATCH 85/87] fix: a moved buffer_streambuf goes on where it was

---
 src/buffer_streambuf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..1de9070 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -111,6 +111,9 @@ namespace abc {
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
 		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		// Go on where the other one was.
+		base::setg(other.eback(), other.gptr(), other.egptr());
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 	}
 
 
-- 
2.43.0


From 4a88e0f8a734d56454de8fc13e602b8781fe7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 86/87] fix: vmem_map: an insert that can not get its pages
 changes nothing

---
 src/i/vmem_map.i.h |  7 +++++
 src/x/vmem_map.x.h | 64 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index 8f8e97c..3220e2f 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -457,6 +457,13 @@ namespace abc {
 		 */
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
+		/**
+		 * @brief				Makes sure there are enough free pages to insert an item and to update the key levels.
+		 * @param find_result	`find_result2`
+		 * @return 				`true` if the item can be inserted; otherwise nothing may be changed.
+		 */
+		bool reserve_pages(const find_result2& find_result) noexcept;
+
 		/**
 		 * @brief				Returns the position of the key item that refers to a page.
 		 * @param key_page_pos	Key page position to start from. Receives the position of the key page where the item was found.
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 954dcfa..b39f3b3 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -313,11 +313,16 @@ namespace abc {
 
 		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
-		value_level_result2 values_result = _values.insert2(values_itr, item);
-
 		result2 result(nullptr);
-		if (values_result.iterator.is_valid()) {
-			result = update_key_levels(true, std::move(find_result), std::move(values_result));
+
+		// Once the item is inserted, the key levels must be updated. So, make sure that is possible.
+		if (reserve_pages(find_result)) {
+			value_level_result2 values_result = _values.insert2(values_itr, item);
+
+			// end() means the item could not be inserted.
+			if (values_result.iterator.can_deref()) {
+				result = update_key_levels(true, std::move(find_result), std::move(values_result));
+			}
 		}
 
 		if (_log != nullptr) {
@@ -342,7 +347,8 @@ namespace abc {
 
 		find_result2 find_result = find2(key);
 
-		if (find_result.ok) {
+		// Without the whole path, the key levels couldn't be updated.
+		if (find_result.ok && find_result.path.size() == _key_stack.size()) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x1051c, "vmem_map::erase(key) Found. itr.page_pos=0x%llx, itr.item_pos=0x%x, itr.edge=%d",
 					(long long)find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge());
@@ -550,6 +556,54 @@ namespace abc {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::reserve_pages(const find_result2& find_result) noexcept {
+		if (_values.empty()) {
+			// A single page is needed.
+			return true;
+		}
+
+		bool ok = find_result.iterator.page_pos() != vmem_page_pos_nil && find_result.path.size() == _key_stack.size();
+		bool is_full = false;
+
+		if (ok) {
+			vmem_page<Pool, Log> page(_pool, find_result.iterator.page_pos(), _log);
+
+			if (page.ptr() == nullptr) {
+				ok = false;
+			}
+			else {
+				is_full = reinterpret_cast<vmem_map_value_page<Key, T>*>(page.ptr())->item_count == _values.page_capacity();
+			}
+		}
+
+		if (ok && is_full) {
+			// In the worst case, a page is needed for the values, for each key level, for a new key level, and for the stack of key levels.
+			vmem_linked_state reserved_state;
+			vmem_linked<Pool, Log> reserved(&reserved_state, _pool, _log);
+
+			for (std::size_t count = _key_stack.size() + 3; ok && count > 0; count--) {
+				vmem_page<Pool, Log> page(_pool, _log);
+				ok = page.ptr() != nullptr;
+
+				if (ok) {
+					// Free pages are taken from the back. So, this keeps their order.
+					reserved.push_front(page.pos());
+				}
+			}
+
+			// Nothing else takes free pages until the key levels are updated.
+			reserved.clear();
+		}
+
+		if (!ok && _log != nullptr) {
+			_log->put_any(category::abc::vmem, severity::warning, 0x1080d, "vmem_map::reserve_pages() Could not reserve pages.");
+		}
+
+		return ok;
+	}
+
+
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t page_pos) noexcept {
 		if (_log != nullptr) {
-- 
2.43.0


From 7ff107f332ea559e077b8fa2ad992c13ae130892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:23 +0000
Subject: [PATCH 87/87] fix: vmem_map: a page that can not be mapped does not
 end the process

---
 src/i/vmem_map.i.h | 13 ++++++++++
 src/x/vmem_map.x.h | 62 ++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index 3220e2f..86f1007 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -464,6 +464,19 @@ namespace abc {
 		 */
 		bool reserve_pages(const find_result2& find_result) noexcept;
 
+		/**
+		 * @brief				Gets the state of the top key level.
+		 * @param state			Receives the state.
+		 * @return				`true` if the state could be loaded.
+		 */
+		bool top_key_level_state(vmem_container_state& state) noexcept;
+
+		/**
+		 * @brief				Returns the page position from a path, or `vmem_page_pos_nil` if it could not be loaded.
+		 * @param path_itr		Path iterator.
+		 */
+		vmem_page_pos_t path_page_pos(path_reverse_iterator path_itr) noexcept;
+
 		/**
 		 * @brief				Returns the position of the key item that refers to a page.
 		 * @param key_page_pos	Key page position to start from. Receives the position of the key page where the item was found.
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index b39f3b3..b82b22c 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -432,8 +432,18 @@ namespace abc {
 					// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
 					vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
 
+					vmem_page_pos_t parent_page_pos = path_page_pos(path_itr);
+
+					if (key_level_state_ptr.operator->() == nullptr || parent_page_pos == vmem_page_pos_nil) {
+						if (_log != nullptr) {
+							_log->put_any(category::abc::vmem, severity::warning, 0x1080e, "vmem_map::update_key_levels() Could not load key level.");
+						}
+
+						ok = false;
+						break;
+					}
+
 					vmem_map_key_level<Key, Pool, Log> parent_keys(key_level_state_ptr.operator->(), _pool, _log);
-					vmem_page_pos_t parent_page_pos = *path_itr;
 
 					key_level_result2 keys_result;
 					if (is_insert) {
@@ -521,7 +531,12 @@ namespace abc {
 					}
 					else {
 						while (!_key_stack.empty()) {
-							vmem_container_state top_keys_state = _key_stack.back();
+							vmem_container_state top_keys_state;
+							if (!top_key_level_state(top_keys_state)) {
+								ok = false;
+								break;
+							}
+
 							vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
 
 							if (top_keys.size() > 1) {
@@ -604,6 +619,31 @@ namespace abc {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::top_key_level_state(vmem_container_state& state) noexcept {
+		// The page may fail to load.
+		vmem_ptr<vmem_container_state, Pool, Log> state_ptr = _key_stack.backptr();
+		if (state_ptr.operator->() == nullptr) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, 0x1080f, "vmem_map::top_key_level_state() Could not load key level.");
+			}
+
+			return false;
+		}
+
+		state = *state_ptr;
+		return true;
+	}
+
+
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline vmem_page_pos_t vmem_map<Key, T, Pool, Log>::path_page_pos(path_reverse_iterator path_itr) noexcept {
+		// The page may fail to load.
+		vmem_ptr<vmem_page_pos_t, Pool, Log> page_pos_ptr = path_itr.operator->();
+		return page_pos_ptr.operator->() != nullptr ? *page_pos_ptr : vmem_page_pos_nil;
+	}
+
+
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t page_pos) noexcept {
 		if (_log != nullptr) {
@@ -653,7 +693,7 @@ namespace abc {
 
 		// If the key is the first one on its page, it must be replaced on the upper level too.
 		for (key_stack_itr++, path_itr--; item_pos == 0 && key_stack_itr != _key_stack.end() && path_itr != find_result.path.rbegin(); key_stack_itr++, path_itr--) {
-			vmem_page_pos_t key_page_pos = *path_itr;
+			vmem_page_pos_t key_page_pos = path_page_pos(path_itr);
 			item_pos = key_item_pos(key_page_pos, page_pos);
 
 			if (item_pos != vmem_item_pos_nil) {
@@ -679,8 +719,10 @@ namespace abc {
 			// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
 			vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
 
-			vmem_map_key_level<Key, Pool, Log> keys(key_level_state_ptr.operator->(), _pool, _log);
-			keys.clear();
+			if (key_level_state_ptr.operator->() != nullptr) {
+				vmem_map_key_level<Key, Pool, Log> keys(key_level_state_ptr.operator->(), _pool, _log);
+				keys.clear();
+			}
 		}
 
 		_key_stack.clear();
@@ -749,13 +791,17 @@ namespace abc {
 		find_result2 result(_pool, _log);
 
 		if (!_key_stack.empty()) {
+			// There are key levels.
+			vmem_container_state top_keys_state;
+			if (top_key_level_state(top_keys_state)) {
+				page_pos = top_keys_state.front_page_pos;
+			}
+
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x1052e, "vmem_map::find2() %zu key levels. root page_pos=0x%llx",
-					_key_stack.size(), (long long)_key_stack.back().front_page_pos);
+					_key_stack.size(), (long long)page_pos);
 			}
 
-			// There are key levels.
-			page_pos = _key_stack.back().front_page_pos;
 			result.path.push_back(page_pos);
 
 			for (std::size_t lev = 0; page_pos != vmem_page_pos_nil && lev < _key_stack.size(); lev++) {
-- 
2.43.0

