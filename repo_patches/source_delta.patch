From e1cad09809a9c4f8241826b70e3fd59e509e488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 01/90] fix: recognise negative JSON floating-point numbers as
 floats

identifyType() stopped at the leading minus sign and reported TYPE_INTEGER.
---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..a5e5fd3 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -79,7 +79,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + (nextChar == '-'); _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From 203a10e60688f227e053c1b598513e1c840921f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 02/90] fix: write numbers longer than 19 characters to JSON
 without overrunning the buffer

---
 bomba_json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index a5e5fd3..69e6c42 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -265,10 +265,10 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Long enough for any int64_t or double
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			std::to_chars_result got = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			_contents += std::string_view(bytes.data(), got.ptr - bytes.data());
 		}
 		void newLine() {
 			if (_skipNewline) [[unlikely]] {
-- 
2.43.0


From 6325a207d6527006d3cbce480471f2b9242ad604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 03/90] fix: escape control characters in JSON strings
 correctly

A newline was written as a backslash followed by a raw newline (invalid JSON, read back as nothing),
other control characters were written raw, and the escapes \t \r \b \f \/ \uXXXX were dropped when reading.
---
 bomba_json.hpp | 81 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 79 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 69e6c42..5da111a 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -66,6 +66,60 @@ struct BasicJson {
 			}
 		}
 		
+		uint32_t readHexDigits() {
+			uint32_t result = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				result <<= 4;
+				if (digit >= '0' && digit <= '9')
+					result += digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					result += digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					result += digit - 'A' + 10;
+				else {
+					fail("Invalid unicode escape in JSON string");
+					return 0;
+				}
+			}
+			return result;
+		}
+
+		void readUnicodeEscape() { // Called after \u, appends the character as UTF-8
+			uint32_t character = readHexDigits();
+			if (character >= 0xd800 && character < 0xdc00) { // First half of a surrogate pair
+				if (getChar() != '\\' || getChar() != 'u') {
+					fail("Invalid surrogate pair in JSON string");
+					return;
+				}
+				uint32_t low = readHexDigits();
+				if (low < 0xdc00 || low > 0xdfff) {
+					fail("Invalid surrogate pair in JSON string");
+					return;
+				}
+				character = 0x10000 + ((character - 0xd800) << 10) + (low - 0xdc00);
+			} else if (character >= 0xdc00 && character <= 0xdfff) {
+				fail("Invalid surrogate pair in JSON string");
+				return;
+			}
+
+			if (character < 0x80) {
+				_resultBuffer += char(character);
+			} else if (character < 0x800) {
+				_resultBuffer += char(0xc0 | (character >> 6));
+				_resultBuffer += char(0x80 | (character & 0x3f));
+			} else if (character < 0x10000) {
+				_resultBuffer += char(0xe0 | (character >> 12));
+				_resultBuffer += char(0x80 | ((character >> 6) & 0x3f));
+				_resultBuffer += char(0x80 | (character & 0x3f));
+			} else {
+				_resultBuffer += char(0xf0 | (character >> 18));
+				_resultBuffer += char(0x80 | ((character >> 12) & 0x3f));
+				_resultBuffer += char(0x80 | ((character >> 6) & 0x3f));
+				_resultBuffer += char(0x80 | (character & 0x3f));
+			}
+		}
+
 	public:
 		Input(std::string_view contents) : _contents(contents) {}
 		
@@ -142,6 +196,20 @@ struct BasicJson {
 						_resultBuffer += '"';
 					else if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == '/')
+						_resultBuffer += '/';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == 'u')
+						readUnicodeEscape();
+					else
+						fail("Invalid escape sequence in JSON string");
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
@@ -292,9 +360,18 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]] {
 					_contents += '\\';
-				_contents += it;
+					_contents += it;
+				} else if (it == '\n') [[unlikely]] {
+					_contents += "\\n";
+				} else if (uint8_t(it) < 0x20) [[unlikely]] { // Control characters must not appear in a string unescaped
+					constexpr const char* hexDigits = "0123456789abcdef";
+					_contents += "\\u00";
+					_contents += hexDigits[uint8_t(it) >> 4];
+					_contents += hexDigits[uint8_t(it) & 0xf];
+				} else
+					_contents += it;
 			}
 			_contents += '"';
 		}
-- 
2.43.0


From 9c15b6997fc57a0f1abdd5c0c307108ac4b2097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 04/90] fix: skip unneeded JSON values exactly

A value followed directly by the end of the surrounding object or array swallowed that end as well,
and an escaped character in a skipped string ended the string too early.
---
 bomba_json.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 5da111a..25a0442 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -283,6 +283,7 @@ struct BasicJson {
 		}
 		void skipObjectElement(Flags) final override {
 			eatWhitespace();
+			const int start = _position;
 			int depth = 0;
 			do {
 				char readingChar = peekChar();
@@ -290,6 +291,11 @@ struct BasicJson {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0) { // End of the surrounding structure
+						if (_position == start) [[unlikely]]
+							fail("Expected JSON value");
+						break;
+					}
 					depth--;
 					getChar();
 					if (depth <= 0)
@@ -299,9 +305,14 @@ struct BasicJson {
 					break; // eatWhitespace() was called before
 				} else if (readingChar == '"') {
 					getChar();
-					do {
+					readingChar = getChar();
+					while (readingChar != '"') {
+						if (readingChar == '\\')
+							getChar();
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+					}
+					if (depth == 0)
+						break;
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From 6544e9f00274608a6bdcc2c014e97837618597b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 05/90] fix: read JSON integers at the end of input and ones
 written with an exponent

An integer that was the last thing in the input was refused (unexpected end of input), and
numbers like 1e3 or 15E-1 lost their exponent.
---
 bomba_json.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 25a0442..6601d01 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -155,16 +155,21 @@ struct BasicJson {
 		
 		int64_t readInt(Flags flags) final override {
 			eatWhitespace();
+			const int start = _position;
 			int64_t result = 0;
 			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
 			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
-				_position++;
-				next = peekChar();
+			char next = peekChar<false>();
+			if (next == '.' || next == 'e' || next == 'E') {
+				_position = start;
+				double asFloat = readFloat(flags);
+				if (asFloat >= -0x1p63 && asFloat < 0x1p63) [[likely]]
+					result = int64_t(asFloat);
+				else
+					fail("JSON integer out of range");
 			}
 			return result;
 		}
-- 
2.43.0


From ffa33a621aa9f19bd90cdfe3e832367c27736393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 06/90] fix: read JSON objects and arrays up to their actual
 end

If the reader did not want all the members or elements, the rest was parsed as whatever was expected next.
---
 bomba_json.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 6601d01..1ced302 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -263,8 +263,10 @@ struct BasicJson {
 			return false;
 		}
 		void endReadingArray(Flags flags) final override {
-			eatWhitespace();
-			getChar();
+			while (good && nextArrayElement(flags)) // The reader may not have been interested in all elements
+				skipObjectElement(flags);
+			if (getChar() != ']')
+				fail("Expected end of JSON array");
 		}
 		
 
@@ -277,14 +279,24 @@ struct BasicJson {
 			for (int index = 0; true; index++) {
 				eatWhitespace();
 				if (peekChar() != '}') {
-					if (!onEach(readString(flags), index))
+					std::string_view name = readString(flags);
+					const int valuePosition = _position;
+					if (!onEach(name, index)) {
+						if (_position == valuePosition)
+							skipObjectElement(flags);
 						break;
+					}
 				} else
 					break;
 			}
 
-			eatWhitespace();
-			getChar();
+			// The reader may not have been interested in all members
+			for (eatWhitespace(); good && peekChar() != '}'; eatWhitespace()) {
+				readString(flags);
+				skipObjectElement(flags);
+			}
+			if (getChar() != '}')
+				fail("Expected end of JSON object");
 		}
 		void skipObjectElement(Flags) final override {
 			eatWhitespace();
-- 
2.43.0


From 5a820392c27bbf657214e6e31ef9214ecb3f84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 07/90] fix: read all known members of an object that contains
 unknown ones

Reading stopped after as many members as the class has, so unknown members hid the known ones behind them.
---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..fa2b87b 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -440,7 +440,7 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			return name.has_value() || (index < ObjectInfo<Child>::size - 1); // Named members may come in any number and order
 #endif
 		});
 		return format.good;
-- 
2.43.0


From 0925044f4eebf18ef7dd3d21c5cc0f2fa5040853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 08/90] fix: do not start a JSON object with a comma if its
 first member was omitted

---
 bomba_json.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 1ced302..3454a8f 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -358,6 +358,7 @@ struct BasicJson {
 		OutputStringType& _contents;
 		int _depth = 0;
 		bool _skipNewline = false;
+		bool _first = true; // Nothing was written yet into the current object or array, indexes may start from a higher number
 		
 		template <typename Num>
 		void writeValue(Num value) {
@@ -415,30 +416,35 @@ struct BasicJson {
 		
 		void startWritingArray(Flags flags, int size) final override {
 			_contents += '[';
+			_first = true;
 			_depth++;
 			if (size == 0)
 				_skipNewline = true;
 		}
 		void introduceArrayElement(Flags flags, int index) final override {
-			if (index > 0)
+			if (!_first)
 				_contents += ',';
+			_first = false;
 			newLine();
 		}
 		void endWritingArray(Flags flags) final override {
 			_depth--;
 			newLine();
 			_contents += ']';
+			_first = false;
 		}
 		
 		void startWritingObject(Flags flags, int size) final override {
 			_contents += '{';
+			_first = true;
 			_depth++;
 			if (size == 0)
 				_skipNewline = true;
 		}
 		void introduceObjectMember(Flags flags, std::string_view name, int index) final override {
-			if (index > 0)
+			if (!_first)
 				_contents += ',';
+			_first = false;
 			newLine();
 			writeString(flags, name);
 			_contents += " : ";
@@ -447,6 +453,7 @@ struct BasicJson {
 			_depth--;
 			newLine();
 			_contents += '}';
+			_first = false;
 		}
 
 		void writeOptional(Flags flags, bool present, Callback<> writeValue) final override {
-- 
2.43.0


From 620c12770c4aaf06f4fc7f3fecaa6b16486e4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 09/90] fix: do not write behind a full buffer that can not
 expand

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..fd8e079 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -421,6 +421,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.empty() && !bufferFull())
+			return *this;
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From a461bde6edc6d4967f800a5f5650c655e4a4acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 10/90] fix: reuse the whole streaming buffer after it is
 flushed manually

The data after a manual flush was kept behind the flushed data while the next flush sent bytes from the start.
---
 bomba_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index fd8e079..bb096b3 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -495,6 +495,7 @@ struct NonOwningStreamingBuffer : StreamingBuffer<StaticSize> {
 		if (this->size() > this->_sizeAtLastFlush) {
 			writer({this->_basic.data(), size_t(this->size() - this->_sizeAtLastFlush)});
 			this->_sizeAtLastFlush = this->size();
+			this->moveBuffer({this->_basic.data(), StaticSize});
 		}
 	}
 	NonOwningStreamingBuffer(Callback<void(std::span<const char>)> writer) : writer(writer) {}
-- 
2.43.0


From 65788b5f95a41a57a8ae3eeb5c47f4803bd1a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 11/90] fix: report the right size of a buffer that was cleared

---
 bomba_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index bb096b3..c54d484 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -464,6 +464,10 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
+	void restart(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 	int remainingSpace() const {
 		return _buffer.size();
 	}
@@ -524,7 +528,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		this->restart({_basic.data(), _basic.size()});
 	}
 };
 
@@ -575,7 +579,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		this->restart({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From 06d7f87883b8f5b40f6a70b29cca8d2601f9b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 12/90] fix: serialise integer types that are not aliases of
 fixed size integers

The flags for char, long long, wchar_t etc. were the indeterminate value of a function without a return statement.
---
 bomba_core.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index c54d484..4fa1efe 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -139,6 +139,13 @@ namespace SerialisationFlags {
 		else if constexpr(std::is_same_v<T, Float16Placeholder>) return FLOAT_16;
 		else if constexpr(std::is_same_v<T, float>) return FLOAT_32;
 		else if constexpr(std::is_same_v<T, double>) return FLOAT_64;
+		else if constexpr(std::is_floating_point_v<T>) return FLOAT_64; // long double
+		else if constexpr(std::is_integral_v<T>) { // Integers that aren't aliased by the types above, like char or long long
+			if constexpr(sizeof(T) == 1) return std::is_signed_v<T> ? INT_8 : UINT_8;
+			else if constexpr(sizeof(T) == 2) return std::is_signed_v<T> ? INT_16 : UINT_16;
+			else if constexpr(sizeof(T) == 4) return std::is_signed_v<T> ? INT_32 : UINT_32;
+			else return std::is_signed_v<T> ? INT_64 : UINT_64;
+		}
 	}
 
 	template <typename Functor>
-- 
2.43.0


From 1e41f92c02d4ff73d7fd42186f414b5a0e905d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 13/90] fix: convert 16-bit floats correctly

The exponent was not rebiased, subnormals, infinities and NaN were mangled, and the result of reading
was the bit pattern converted to float by value.
---
 bomba_core.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 4fa1efe..eb69dd8 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -6,6 +6,7 @@
 #include <span>
 #include <tuple>
 #include <cstring>
+#include <bit>
 
 #ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
 #include <stdexcept>
@@ -93,12 +94,31 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 struct Float16Placeholder {
 	uint16_t data;
 	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+		uint32_t asInt = std::bit_cast<uint32_t>(value);
+		uint32_t mantissa = asInt & 0x007fffff;
+		int exponent = int((asInt >> 23) & 0xff) - 127 + 15;
+		data = (asInt >> 16) & 0x8000;
+		if (exponent == 0xff - 127 + 15) // Infinity or NaN
+			data |= 0x7c00 | (mantissa >> 13) | (mantissa ? 0x0200 : 0);
+		else if (exponent >= 0x1f) // Too large
+			data |= 0x7c00;
+		else if (exponent > 0)
+			data |= (exponent << 10) | (mantissa >> 13);
+		else if (exponent > -10) // Subnormal
+			data |= (mantissa | 0x00800000) >> (14 - exponent);
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		uint32_t sign = uint32_t(data & 0x8000) << 16;
+		uint32_t exponent = (data >> 10) & 0x1f;
+		uint32_t mantissa = data & 0x03ff;
+		if (exponent == 0x1f)
+			return std::bit_cast<float>(sign | 0x7f800000 | (mantissa << 13));
+		if (exponent == 0) {
+			float value = mantissa * 0x1p-24f;
+			return sign ? -value : value;
+		}
+		return std::bit_cast<float>(sign | ((exponent + 127 - 15) << 23) | (mantissa << 13));
 	}
 };
 
-- 
2.43.0


From 8d3db9a8c9e02ab5d495d78427f7e33d93a64cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 14/90] fix: serialise maps inside objects and arguments with
 their keys in binary formats

The flag that the layout of the surrounding class is known was applied also to maps, so they were written
without size and keys and could not be read back.
---
 bomba_core.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index eb69dd8..07fd60d 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1126,20 +1126,23 @@ concept SerialisableMap = requires(M map, M secondMap, typename M::key_type key)
 template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
+	static SerialisationFlags::Flags ownFlags(SerialisationFlags::Flags flags) { // Unlike with classes, the keys are never known
+		return SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN);
+	}
 	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
-		out.startWritingObject(flags, value.size());
+		out.startWritingObject(ownFlags(flags), value.size());
 		int index = 0;
 		for (auto& it : value) {
-			out.introduceObjectMember(flags, std::string_view(it.first), index);
+			out.introduceObjectMember(ownFlags(flags), std::string_view(it.first), index);
 			TypedSerialiser<ValueType>::serialiseMember(out, it.second, flags);
 			index++;
 		}
-		out.endWritingObject(flags);
+		out.endWritingObject(ownFlags(flags));
 	}
 
 	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
 		if (value.empty()) {
-			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
+			in.readObject(ownFlags(flags), [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
 				return true;
 			});
@@ -1147,7 +1150,7 @@ struct TypedSerialiser<Map> {
 			// If there were some elements, update them and move them into a new map
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
-			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
+			in.readObject(ownFlags(flags), [&] (std::optional<std::string_view> elementName, int) {
 				auto found = value.find(typename Map::key_type(*elementName));
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-- 
2.43.0


From 59ac092c6288fa5e18c838e8871e9d6bfbd1979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 15/90] fix: keep the keys when updating a non-empty map

The key was used after reading the value, when the buffer it was in could have been already overwritten by the value.
---
 bomba_core.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 07fd60d..9496407 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1151,10 +1151,11 @@ struct TypedSerialiser<Map> {
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
 			in.readObject(ownFlags(flags), [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
+				typename Map::key_type key(*elementName); // Reading the value may invalidate the view
+				auto found = value.find(key);
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
+					result[key] = std::move(found->second);
 				} else
 					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
 				return true;
-- 
2.43.0


From 0bac765de4c3e0a5332ec13b756ef93abbe9c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 16/90] fix: read the excess elements of arrays of fixed size

They were left unread and parsed as the data following the array.
---
 bomba_core.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 9496407..42c456e 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1048,8 +1048,13 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
-			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+		for (int i = 0; in.nextArrayElement(flags); i++) {
+			if (i < int(size)) {
+				TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+			} else { // Has to be read to get behind it
+				T unused = {};
+				TypedSerialiser<T>::deserialiseMember(in, unused, flags);
+			}
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From 80ee79507e1b204e8078272a3aa3842362fa5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 17/90] fix: do not let the numeric type of elements affect
 other parts of the binary format

If a numeric type was set by flags, sizes were written twice with mixed up types, and so were bools.
---
 bomba_binary_protocol.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..53b94ca 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -81,9 +81,8 @@ struct BinaryFormat {
 			_position += bytesRead;
 			return value;
 		}
-		int64_t readSize(Flags flags) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
+		int64_t readSize(Flags flags) { // The type of size is always the same, any numeric type in flags is for the elements
+			flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE);
 			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
@@ -183,8 +182,7 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
+			flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE);
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
@@ -201,6 +199,7 @@ struct BinaryFormat {
 			_contents += value;
 		}
 		void writeBool(Flags flags, bool value) final override {
+			flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE);
 			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(flags | SerialisationFlags::INT_8), _contents);
 		}
 		void writeNull(Flags) final override {
-- 
2.43.0


From 2cedfec544f5f420666e564f7cf44964beb3aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 18/90] fix: refuse to serialise data longer than the binary
 format's size type allows

The size was silently truncated, producing data that can not be read.
---
 bomba_binary_protocol.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 53b94ca..93ea0fb 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -182,6 +182,10 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
+			if (int64_t(SizeType(size)) != size || SizeType(size) < 0) [[unlikely]] {
+				logicError("Size does not fit the size type of the binary format");
+				return;
+			}
 			flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE);
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
-- 
2.43.0


From 21b18b82d14e8170da777a634190a4a53607bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 19/90] fix: read all elements of arrays in binary format

Deserialising an array dropped its last element, leaving it to be parsed as whatever follows.
---
 bomba_binary_protocol.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 93ea0fb..68f0f43 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -66,7 +66,9 @@ struct BinaryFormat {
 	class Input : public IStructuredInput {
 		std::span<const char> _contents;
 		int _position = 0;
-		std::array<int, MaxDepth> _sizes;
+		std::array<int64_t, MaxDepth> _sizes;
+		constexpr static int NOT_FIRST = -1;
+		std::array<int, MaxDepth> _firstPositions;
 		int _depth = -1;
 
 		template <typename T>
@@ -133,10 +135,18 @@ struct BinaryFormat {
 			if (_depth == MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_sizes[_depth] = readSize(flags);
+			_firstPositions[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
+			if (_firstPositions[_depth] != NOT_FIRST) {
+				if (_firstPositions[_depth] != _position) // The first element was read without calling this method
+					_sizes[_depth]--;
+				_firstPositions[_depth] = NOT_FIRST;
+			}
+			if (_sizes[_depth] <= 0)
+				return false;
 			_sizes[_depth]--;
-			return (_sizes[_depth] > 0);
+			return true;
 		}
 		void endReadingArray(Flags) final override {
 			_sizes[_depth] = -1;
-- 
2.43.0


From 0365596cdeef05cd501b8d4cbdc59e3b5015026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 20/90] fix: refuse strings with nonsensical length in binary
 format

---
 bomba_binary_protocol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 68f0f43..94b2e71 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -107,7 +107,7 @@ struct BinaryFormat {
 		}
 		std::string_view readString(Flags flags) final override {
 			auto length = readSize(flags);
-			if (_position + length > _contents.size()) [[unlikely]] {
+			if (length < 0 || length > std::ssize(_contents) - _position) [[unlikely]] {
 				parseError("Incomplete request");
 				good = false;
 				return "";
-- 
2.43.0


From ee7034b360a6715b816abdc47ec960c9e61a21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 21/90] fix: do not omit false arguments in binary format

All the following arguments were read as the omitted one.
---
 bomba_binary_protocol.hpp | 4 ++++
 bomba_core.hpp            | 5 +++++
 bomba_rpc_object.hpp      | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 94b2e71..92873c4 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -249,6 +249,10 @@ struct BinaryFormat {
 			if (present)
 				writeValue();
 		}
+
+		bool canOmitMembers() const final override {
+			return false;
+		}
 	};
 };
 
diff --git a/bomba_core.hpp b/bomba_core.hpp
index 42c456e..87d876d 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -229,6 +229,11 @@ struct IStructuredOutput {
 	// Should write an optional value, empty if it's absent and calling the callback to write the value if present
 	virtual void writeOptional(Flags flags, bool present, Callback<> writeValue) = 0;
 
+	// Should return if object members can be left out, which is not possible if they are identified by their order
+	virtual bool canOmitMembers() const {
+		return true;
+	}
+
 	virtual ~IStructuredOutput() = default;
 
 	// Convenience classes and methods for using this interface in a less error prone way
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..64335b1 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -474,7 +474,7 @@ struct RpcLambdaInformationHolder {
 				TypedSerialiser<First>::serialiseMember(out, first, flags);
 			};
 			if constexpr(std::is_same_v<bool, First>) {
-				if (first || !(flags & SerialisationFlags::OMIT_FALSE))
+				if (first || !(flags & SerialisationFlags::OMIT_FALSE) || !out.canOmitMembers())
 					write();
 			} else {
 				write();
-- 
2.43.0


From f831a259ae9c48ce3784fde73e2ceadf50dfed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 22/90] fix: deserialise classes without members from formats
 that don't use names

---
 bomba_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index fa2b87b..d7d7fe8 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -124,7 +124,8 @@ struct ObjectInfo {
 	static void serialise(IStructuredOutput& out, const ISerialisable* parent, SerialisationFlags::Flags flags) {}
 	static void deserialise(IStructuredInput& in, ISerialisable* parent,
 				SerialisationFlags::Flags flags, std::optional<std::string_view> memberName, int index) {
-		in.skipObjectElement(flags);
+		if (memberName.has_value()) // Otherwise there is nothing to skip, the members are identified by their order
+			in.skipObjectElement(flags);
 	}
 	static void describe(IPropertyDescriptionFiller&) {}
 	static void listTypes(ISerialisableDescriptionFiller&) {}
-- 
2.43.0


From 72577e783942298e761c43188c1fc67c9162c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 23/90] fix: process exactly the declared size of a binary
 request

Arguments could be read from the following request, a message declared shorter than its header was accepted,
unread arguments were left to be processed as another request and a custom depth limit was not used.
---
 bomba_binary_protocol.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 92873c4..7f7a5a3 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -276,13 +276,19 @@ public:
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input header(std::string_view(input.data(), input.size()));
 
-			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
-			if (input.size() < inputSize)
+			int messageId = header.readInt(SerialisationFlags::UINT_32);
+			int64_t inputSize = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < header.position())
+				return {ServerReaction::DISCONNECT, 0};
+			if (std::ssize(input) < inputSize)
 				return {ServerReaction::READ_ON, 0};
 
+			// The message must not be read further than its declared size
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input in(std::string_view(input.data(), inputSize));
+			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
+
 			const IRemoteCallable* target = &parent.callable;
 			while (target->getChild(0)) {
 				int request = in.readInt(SerialisationFlags::UINT_8);
@@ -291,7 +297,7 @@ public:
 					return {ServerReaction::DISCONNECT, 0};
 			}
 
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Output out(outputBuffer);
 			out.writeInt(SerialisationFlags::UINT_32, messageId);
 			auto sizePosition = outputBuffer.size();
 			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
@@ -305,7 +311,7 @@ public:
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return {ServerReaction::OK, inputSize};
 		}
 	};
 
-- 
2.43.0


From 67ca3694492746cbe55ff7b2fa9fceecaae78b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 24/90] fix: disconnect when a binary request fails

An exception escaped into the networking layer, a reported error was sent as if it was a result
and a response too long for the size type was sent with a truncated size.
---
 bomba_binary_protocol.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 7f7a5a3..0e52650 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -272,6 +272,16 @@ public:
 	public:
 		std::pair<ServerReaction, int64_t> respond(
 				std::span<char> input, Callback<void(std::span<const char>)> writer) override {
+			try {
+				return respondInternal(input, writer);
+			} catch (...) { // The protocol has no other way to report an error
+				return {ServerReaction::DISCONNECT, 0};
+			}
+		}
+
+	private:
+		std::pair<ServerReaction, int64_t> respondInternal(
+				std::span<char> input, Callback<void(std::span<const char>)> writer) {
 			if (input.size() < sizeof(int) + sizeof(SizeType))
 				return {ServerReaction::READ_ON, 0};
 
@@ -302,11 +312,14 @@ public:
 			auto sizePosition = outputBuffer.size();
 			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
+			bool failed = false;
+			if (!target->call(&in, out, [&] {}, [&] (std::string_view) { failed = true; }) || failed)
+				return {ServerReaction::DISCONNECT, 0};
 			SizeType outputSize = outputBuffer.size();
-			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+			if (int64_t(outputSize) != outputBuffer.size()) // Too long for the protocol
+				return {ServerReaction::DISCONNECT, 0};
+			std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(outputSize);
+			memcpy(&std::span<char>(outputBuffer)[sizePosition], writtenSize.data(), writtenSize.size());
 
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
-- 
2.43.0


From 0c449e6dbad347ab629ce1a221dc5734d89db1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 25/90] fix: parse exactly the declared size of a binary
 response

A response could be read from the following one or accepted with size smaller than its header, a missing response
was reported as found, oversized requests were sent with truncated size and a custom depth limit was not used.
---
 bomba_binary_protocol.hpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 0e52650..2393c40 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -343,18 +343,21 @@ class BinaryProtocolClient : public IRpcResponder {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
 			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
-			if (!identified) {
-				if (data.size() < sizeof(int) + sizeof(SizeType))
-					return {ServerReaction::READ_ON, RequestToken(), 0};
-			}
+			if (data.size() < sizeof(int) + sizeof(SizeType))
+				return {ServerReaction::READ_ON, RequestToken(), 0};
 			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
-			if (data.size() < size)
+			int64_t size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (size < in.position()) [[unlikely]]
+				return {ServerReaction::DISCONNECT, receivedToken, 0};
+			if (std::ssize(data) < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
 			if (!identified && receivedToken != token)
 				return {ServerReaction::WRONG_REPLY, receivedToken, size};
 
-			operation(in);
+			// The message must not be read further than its declared size
+			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input limited(std::string_view(data.data(), size));
+			limited.restorePosition(SerialisationFlags::NONE, in.storePosition(SerialisationFlags::NONE));
+			operation(limited);
 			return {ServerReaction::OK, token, size};
 		};
 	}
@@ -366,7 +369,7 @@ public:
 
 	RequestToken send(UserId, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override {
 		ExpandingBufferType outputBuffer;
-		typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
+		typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Output out(outputBuffer);
 		out.writeInt(SerialisationFlags::UINT_32, _sendOrder);
 		RequestToken token{_sendOrder};
 		_sendOrder++;
@@ -387,6 +390,8 @@ public:
 		request(out, token);
 
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
+		if (int64_t(SizeType(outputBuffer.size())) != outputBuffer.size())
+			logicError("Request does not fit the size type of the binary protocol");
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
 		memcpy(&writing[sizePosition], &writtenSize, sizeof(writtenSize));
@@ -394,12 +399,18 @@ public:
 		return token;
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
-		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) { reader(input); }));
-		return true;
+		bool found = false;
+		auto operation = [&] (IStructuredInput& input) {
+			found = true;
+			reader(input);
+		};
+		_tcpClient.getResponse(token, getResponseReader(token, operation));
+		return found;
 	}
 	bool hasResponse(RequestToken token) override {
 		bool hasIt = false;
-		_tcpClient.tryToGetResponse(token, getResponseReader(token, [&] (IStructuredInput&) { hasIt = true; }));
+		auto operation = [&] (IStructuredInput&) { hasIt = true; };
+		_tcpClient.tryToGetResponse(token, getResponseReader(token, operation));
 		return hasIt;
 	}
 };
-- 
2.43.0


From 60710657829051e92a031870dcddc3ff7ef0e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 26/90] fix: skip unknown arguments of remote procedure calls

The value of an unknown argument was parsed as the name of the next one.
---
 bomba_rpc_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 64335b1..cb80e7a 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -414,7 +414,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
-				return;
+				if (name.has_value()) // Otherwise there is nothing to skip, arguments are identified by their order
+					in.skipObjectElement(flags);
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
 					TypedSerialiser<std::decay_t<decltype(std::get<ArgIndex>(args))>>::deserialiseMember(
-- 
2.43.0


From 8925354e7af317eb57e384079ba2ca4d37959e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 27/90] fix: fail a remote call if it got no response instead
 of returning an uninitialised value

---
 bomba_rpc_object.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index cb80e7a..4f17990 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -486,15 +486,22 @@ struct RpcLambdaInformationHolder {
 		void remoteCallHelper(IStructuredOutput&) const {}
 
 		Returned readResponse(IRpcResponder* responder, RequestToken token) const override {
+			bool received = false;
 			if constexpr(std::is_void_v<Returned>) {
 				responder->getResponse(token, [&](IStructuredInput& in) {
+					received = true;
 					in.readNull(Flags);
 				});
+				if (!received) [[unlikely]]
+					remoteError("No response was received");
 			} else {
-				Returned result;
+				Returned result = {};
 				responder->getResponse(token, [&](IStructuredInput& in) {
+					received = true;
 					TypedSerialiser<Returned>::deserialiseMember(in, result, Flags);
 				});
+				if (!received) [[unlikely]]
+					remoteError("No response was received");
 				return result;
 			}
 		}
-- 
2.43.0


From 54a9ba5fec6d0d0066a1f966b3f473e5882f1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 28/90] fix: make futures of calls without results work

Checking if the result is ready caused get() to ignore the response (including failures), get() crashed if the call
was done locally and assigning a future lost its contents and lacked a return statement.
---
 bomba_rpc_object.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 4f17990..4f38220 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -263,7 +263,12 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			std::swap(_reader, other._reader);
+			std::swap(_responder, other._responder);
+			std::swap(_token, other._token);
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
@@ -314,21 +319,32 @@ template <>
 class Future<void> : Detail::FutureBase<void> {
 	using Base = Detail::FutureBase<void>;
 	mutable bool _done = false;
+	mutable bool _failed = false;
 public:
 	using Base::FutureBase;
-	Future() = default;
+	Future() : _done(true) {} // Result of a call that was done immediately
+	Future& operator=(Future&& other) {
+		Base::operator=(std::move(other));
+		std::swap(_done, other._done);
+		std::swap(_failed, other._failed);
+		return *this;
+	}
 
 	void get() const {
 		if (_done)
 			return;
+		if (_failed)
+			remoteError("The call has failed");
+		_failed = true; // Unless finished successfully, there is no other response to wait for
 		Base::_reader->readResponse(Base::_responder, Base::_token);
+		_failed = false;
 		_done = true;
 	}
 
 	bool is_ready() const {
-		if (_done)
+		if (_done || _failed)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder->hasResponse(Base::_token);
 	}
 };
 
-- 
2.43.0


From ad6a50e51f91bbf504e0cfb13d7772d9d5b282b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 29/90] fix: do not terminate or wait forever when a future of
 a failed call is destroyed

The destructor repeated the waiting for a response that was already processed, an exception thrown from it terminated
the program and an overwritten future was left in a state that crashed when destroyed.
---
 bomba_rpc_object.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 4f38220..e53df10 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -277,14 +277,19 @@ struct IResponseReader {
 template <typename Returned>
 class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
+	mutable bool _failed = false;
 	using Base = Detail::FutureBase<Returned>;
 
 	void cleanup() {
-		if (Base::_responder && !_value) {
-			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
-		}
+		if (Base::_responder && !_value && !_failed) {
+			try {
+				get();
+			} catch (...) {} // Nobody is interested in the result, not even if it's a failure
+		}
+		Base::_reader = nullptr;
+		Base::_responder = nullptr;
+		_value = std::nullopt;
+		_failed = false;
 	}
 public:
 	using Base::FutureBase;
@@ -295,17 +300,23 @@ public:
 		std::swap(Base::_responder, other._responder);
 		std::swap(Base::_token, other._token);
 		std::swap(_value, other._value);
+		std::swap(_failed, other._failed);
 		return *this;
 	}
 
 	Returned get() const {
-		if (!_value)
+		if (!_value) {
+			if (_failed)
+				remoteError("The call has failed");
+			_failed = true; // Unless finished successfully, there is no other response to wait for
 			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+			_failed = false;
+		}
 		return *_value;
 	}
 
 	bool is_ready() const {
-		if (_value)
+		if (_value || _failed)
 			return true;
 		return Base::_responder->hasResponse(Base::_token);
 	}
-- 
2.43.0


From 39c24089c2c952395e490a0d3172e598c90fde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 30/90] fix: use the new responder after it is replaced

Children kept using the responder they were created with or used for the first time.
---
 bomba_core.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 87d876d..84d32fd 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -782,18 +782,22 @@ class IRemoteCallable {
 protected:
 	void setSelfAsParent(IRemoteCallable* reparented) {
 		reparented->_parent = this;
-		reparented->_responder = _responder;
+		reparented->_responder = nullptr; // Found through the parent
 	}
 	void unsetParent(IRemoteCallable* reparented) {
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
 	}
+	IRpcResponder* findResponder() const { // Returns nullptr if it's not a client
+		if (!_responder && _parent)
+			return _parent->findResponder(); // Not stored, the parent's responder may change
+		return _responder;
+	}
 	IRpcResponder* getResponder() const {
-		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
-		if (!_responder) [[unlikely]]
+		IRpcResponder* responder = findResponder();
+		if (!responder) [[unlikely]]
 			logicError("Calling a remote procedure while not being a client");
-		return _responder;
+		return responder;
 	}
 
 public:
-- 
2.43.0


From 22b230ee1b9925bb3a12784aecbc150bb559c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 31/90] fix: call the function locally if it is not connected
 to a server

An exception was thrown although calling locally was implemented.
---
 bomba_rpc_object.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index e53df10..303dd41 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -599,7 +599,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<Args>(args)...));
 			} else {
@@ -607,7 +607,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Returned operator()(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...));
 			} else {
@@ -616,7 +616,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -625,7 +625,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Future<Returned> async(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -643,7 +643,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder));
 			} else {
@@ -652,7 +652,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder);
 				return Future<Returned>(this, responder, token);
-- 
2.43.0


From 5fa092d789aa83b6f61d7ffd5cc74e1afb8e4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 32/90] fix: find remote methods by paths with separators
 longer than one character

---
 bomba_core.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 84d32fd..7685b08 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -853,9 +853,11 @@ struct PathWithSeparator {
 		const IRemoteCallable* current = root;
 		while (start < path.end()) {
 			auto end = start;
+			auto nameEnd = path.end();
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
 					if (i + 1 == Separator.size()) {
+						nameEnd = end;
 						end += i;
 						goto foundSeparator;
 					}
@@ -864,9 +866,11 @@ struct PathWithSeparator {
 			}
 			foundSeparator:;
 			
-			current = current->getChild(std::string_view(start, end));
+			current = current->getChild(std::string_view(start, nameEnd));
 			if (!current)
 				return nullptr;
+			if (end == path.end())
+				break;
 			end++;
 			start = end;
 		}
-- 
2.43.0


From a26307f28c61f6649d14796dfa631c7d65ef414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 33/90] fix: describe all types used by members of described
 types

Types used in containers, optionals or in members of members were left out of the description
although they were referred to, and describing a type referring to itself would not end.
---
 bomba_core.hpp   | 8 ++++++++
 bomba_object.hpp | 7 +------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 7685b08..6275ecd 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1011,6 +1011,14 @@ struct TypedSerialiser<Serialisable> {
 		});
 	}
 	static void listTypes(ISerialisableDescriptionFiller& filler) {
+		static thread_local bool listing = false;
+		if (listing) // The type refers to itself
+			return;
+		struct ListingGuard {
+			bool& listing;
+			ListingGuard(bool& listing) : listing(listing) { listing = true; }
+			~ListingGuard() { listing = false; }
+		} guard(listing);
 		Serialisable instance;
 		instance.listTypes(filler);
 		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& propertyFiller) {
diff --git a/bomba_object.hpp b/bomba_object.hpp
index d7d7fe8..b58ed73 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -54,12 +54,7 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
-	}
+	TypedSerialiser<T>::listTypes(filler);
 }
 
 #ifndef NO_DEFECT_REPORT_2118
-- 
2.43.0


From 14182a870c8bb6bfb1018d6b135228af62a98431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 34/90] fix: describe each type and method in JSON-WSP under
 its own name

Types used several times were described repeatedly (with duplicate keys) and deeply nested methods had doubled dots in their names.
---
 bomba_json_wsp_description.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..4bc705a 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -8,6 +8,9 @@
 #include "bomba_json.hpp"
 #endif
 
+#include <string>
+#include <vector>
+
 // Most information gathered from: https://zims-en.kiwix.campusafrica.gos.orange.com/wikipedia_en_all_nopic/A/JSON-WSP
 
 namespace Bomba {
@@ -70,6 +73,7 @@ public:
 
 class JsonWspTypeDescription : public ISerialisableDescriptionFiller {
 	IStructuredOutput::ObjectFiller& _output;
+	std::vector<std::string> _described;
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
 
 public:
@@ -80,6 +84,11 @@ public:
 	}
 
 	void fillMembers(std::string_view name, Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		for (const std::string& it : _described) {
+			if (it == name)
+				return;
+		}
+		_described.emplace_back(name);
 		auto object = _output.writeObject(name);
 		JsonWspMembersDescription descriptor(object);
 		filler(descriptor);
@@ -156,7 +165,8 @@ public:
 	JsonWspDescription(IStructuredOutput::ObjectFiller& output, std::string_view name = "", std::string_view prefix = "") : _output(output) {
 		if (!prefix.empty()) {
 			_path += prefix;
-			_path += '.';
+			if (prefix.back() != '.') // Nested prefixes end with a dot already
+				_path += '.';
 		}
 		if (!name.empty()) {
 			_path += name;
-- 
2.43.0


From 253a526aa12ac37c41daa071434187b4d746ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 35/90] fix: describe dynamic objects that contain references
 or other objects

Only owned lambdas could be described, null pointer was dereferenced otherwise.
---
 bomba_core.hpp           |  6 ++++++
 bomba_dynamic_object.hpp | 10 ++++++++--
 bomba_rpc_object.hpp     |  7 +++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 6275ecd..5fd4512 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -843,6 +843,12 @@ public:
 	virtual void generateDescription([[maybe_unused]] IRemoteCallableDescriptionFiller& filler) const {
 		// Not supported if not overloaded, does nothing
 	}
+	// Uses the supplied interface to add itself to the description of its parent with the given name
+	virtual void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
+		filler.addSubobject(name, [this] (IRemoteCallableDescriptionFiller& nestedFiller) {
+			generateDescription(nestedFiller);
+		});
+	}
 	virtual ~IRemoteCallable() = default;
 };
 
diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..2363b64 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -101,11 +101,17 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		if (_info)
+			_info->subtypesAdder(filler);
+		else
+			operator->()->listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		if (_info)
+			_info->unnamedChildAdder(name, filler);
+		else
+			operator->()->addToDescription(name, filler);
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 303dd41..acc71ed 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -579,6 +579,13 @@ struct RpcLambdaInformationHolder {
 			}
 		});
 
+		void listTypes(ISerialisableDescriptionFiller& filler) const override {
+			info.subtypesAdder(filler);
+		}
+		void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const override {
+			info.unnamedChildAdder(name, filler);
+		}
+
 		template <StringLiteral Name>
 		constexpr static Detail::ChildDescribingFunction childAdder = [] (IRemoteCallableDescriptionFiller& filler) {
 			info.unnamedChildAdder(Name, filler);
-- 
2.43.0


From 3aef6f5341a009019f7babf193436d981b4abd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 36/90] fix: allow storing callable objects in RpcLambdaHolder

The constructor did not compile.
---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 2363b64..cb0d868 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -62,7 +62,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
-- 
2.43.0


From 2370ab3904af8616916b0b51d1d5d23a728f75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 37/90] fix: destroy the captures of lambdas copied into
 RpcLambdaHolder

When given a reference to the lambda, the check for trivial destruction was done on the reference type.
---
 bomba_dynamic_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index cb0d868..0ae8b3b 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,7 +43,8 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				std::is_trivially_destructible_v<std::decay_t<LambdaType>> &&
+				std::is_trivially_copyable_v<std::decay_t<LambdaType>>)
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From acc64ee3a7912203fd142fccc2de3497fac27b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 38/90] fix: do not look up negative indexes in dynamic objects

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 0ae8b3b..062679a 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -171,7 +171,7 @@ public:
 		return nullptr;
 	}
 	const IRemoteCallable* getChild(int index) const override {
-		if (index < std::ssize(_contents))
+		if (index >= 0 && index < std::ssize(_contents))
 			return _contents[index].second.operator->();
 		else
 			return nullptr;
-- 
2.43.0


From bfaa46c95310f20f8a87e934b2a11f3e654cd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 39/90] fix: find optional members whose contents are not
 initialised by an empty optional

---
 bomba_object.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index b58ed73..ddd18ed 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -318,7 +318,6 @@ class Serialisable : public IDescribableSerialisable {
 					// Can't assure here that the instance part of std::optional won't be left uninitialised if started as blank
 					T value;
 					value = std::decay_t<decltype(*value)>();
-					value = T(std::get<Enumeration>(_args)...);
 					return value;
 				} else {
 					return T(std::get<Enumeration>(_args)...);
-- 
2.43.0


From 104101c809418c836a1253d4941780a92e6b680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 40/90] fix: refuse HTTP messages with invalid or ambiguous
 size

Overflowing, negative, contradictory or nonsensical body lengths, transfer encodings and malformed header lines made
parts of the message to be interpreted as another message or memory outside of it to be accessed.
---
 bomba_http.hpp | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..e926bac 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
+#include <limits>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
 // Good testing site: http://www.ptsv2.com/
@@ -14,7 +15,7 @@ namespace Bomba {
 namespace Detail {
 struct HttpParseState {
 	int parsePosition = 0;
-	int bodySize = -1;
+	int64_t bodySize = -1;
 
 	void reset() {
 		parsePosition = 0;
@@ -43,14 +44,14 @@ struct HttpParseState {
 			}
 
 			if (position == std::ssize(input)) {
-				return {ServerReaction::READ_ON, position - 1};
+				return {ServerReaction::READ_ON, 0};
 			}
 			position++;
 			parsePosition = position;
 		}
 
-		if (position == std::ssize(input)) {
-			return {ServerReaction::READ_ON, position - 1};
+		if (position >= std::ssize(input)) {
+			return {ServerReaction::READ_ON, 0};
 		}
 		// Parse it line by line
 		while (input[position] != '\r') {
@@ -77,6 +78,8 @@ struct HttpParseState {
 					attributeName = std::string_view(input.data() + attributeNameStart, position - attributeNameStart);
 					break;
 				}
+				if (input[position] == '\r' || input[position] == '\n') // Not a header line
+					return {ServerReaction::DISCONNECT, 0};
 				if (input[position] <= 'Z' && input[position] >= 'A')
 					input[position] += 'a' - 'A';
 				position++;
@@ -88,9 +91,9 @@ struct HttpParseState {
 			// Find the value
 			bool colonFound = false;
 			while (position < std::ssize(input)) {
-				if (input[position] == ':')
+				if (input[position] == ':' && !colonFound)
 					colonFound = true;
-				if (input[position] != ' ' && input[position] != '\t' && input[position] != ':') {
+				else if (input[position] != ' ' && input[position] != '\t') {
 					attributeValueStart = position;
 					break;
 				}
@@ -109,15 +112,30 @@ struct HttpParseState {
 					attributeValue = std::string_view(input.data() + attributeValueStart, position - attributeValueStart);
 					break;
 				}
+				if (input[position] == '\n')
+					return {ServerReaction::DISCONNECT, 0};
 				position++;
 			}
-			if (position >= std::ssize(input)) {
-				return {ServerReaction::READ_ON, position - 1};
+			if (position + 1 >= std::ssize(input)) {
+				return {ServerReaction::READ_ON, 0};
 			}
+			if (input[position + 1] != '\n')
+				return {ServerReaction::DISCONNECT, 0};
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				while (!attributeValue.empty() && (attributeValue.back() == ' ' || attributeValue.back() == '\t'))
+					attributeValue.remove_suffix(1);
+				const char* valueEnd = attributeValue.data() + attributeValue.size();
+				int64_t size = 0;
+				auto [numberEnd, error] = std::from_chars(attributeValue.data(), valueEnd, size);
+				if (error != std::errc() || numberEnd != valueEnd || attributeValue[0] == '-'
+						|| size > std::numeric_limits<int64_t>::max() / 2 || (bodySize != -1 && bodySize != size)) {
+					return {ServerReaction::DISCONNECT, 0}; // Impossible to tell where the message ends
+				}
+				bodySize = size;
+			} else if (attributeName == "transfer-encoding") {
+				return {ServerReaction::DISCONNECT, 0}; // Not supported, its content would be considered another message
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
@@ -125,12 +143,12 @@ struct HttpParseState {
 			position += 2;
 			parsePosition = position;
 			if (position >= std::ssize(input)) {
-				return {ServerReaction::READ_ON, position - 1};
+				return {ServerReaction::READ_ON, 0};
 			}
 		}
 
 		if (parsePosition + 1 >= std::ssize(input)) {
-			return {ServerReaction::READ_ON, position - 1};
+			return {ServerReaction::READ_ON, 0};
 		}
 		if (input[parsePosition + 1] != '\n')
 			return {ServerReaction::DISCONNECT, 0};
@@ -919,7 +937,7 @@ public:
 				}
 			
 				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int offset = state.parsePosition + std::max(0, state.bodySize);
+					int64_t offset = state.parsePosition + std::max<int64_t>(0, state.bodySize);
 					state = ParseState{};
 					_lastTokenRead.id++;
 					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
@@ -930,7 +948,7 @@ public:
 						(state.resultCode >= 200 && state.resultCode < 300));
 				if (!identified)
 					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
+				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max<int64_t>(0, state.bodySize)};
 			});
 		}
 	}
-- 
2.43.0


From f0ddc29c74a9637ead527ea440630fceab3ed47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 41/90] fix: do not read behind the end of an incomplete first
 line of a HTTP request

---
 bomba_http.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e926bac..3a11d41 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -649,7 +649,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -661,8 +661,12 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine)) { // Incomplete line
+					requestType = WEIRD_REQUEST;
+					return true;
+				}
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
-- 
2.43.0


From 0ce1c477a9d993adc373b644f90c9e849f7f1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 42/90] fix: do not carry over properties of a HTTP request to
 the next ones in the same session

The content type and the request to close the connection were kept until another request overwrote them.
---
 bomba_http.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3a11d41..1d732ee 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -4,6 +4,7 @@
 #ifndef BOMBA_CORE // Needed to run in godbolt
 #include "bomba_core.hpp"
 #endif
+#include <algorithm>
 #include <charconv>
 #include <limits>
 
@@ -678,7 +679,10 @@ public:
 				if (name == "content-type") {
 					contentType = location;
 				} else if (name == "connection") {
-					if (value == "close")
+					constexpr std::string_view close = "close";
+					auto end = value.find_last_not_of(" \t");
+					if (value.substr(0, end + 1).size() == close.size() && std::equal(close.begin(), close.end(), value.begin(),
+							[] (char expected, char obtained) { return expected == (obtained | ('a' - 'A')); }))
 						ending = ServerReaction::DISCONNECT;
 				} // Ignore others
 			}
@@ -689,8 +693,7 @@ public:
 		std::pair<ServerReaction, int64_t> respond(
 					std::span<char> input, Callback<void(std::span<const char>)> writer) override {
 			auto restore = [this] () {
-				_state.reset();
-				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state = ParseState{};
 			};
 
 			// Locate the header's span
@@ -808,8 +811,9 @@ public:
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 			}
+			ServerReaction ending = _state.ending;
 			restore();
-			return {_state.ending, consuming};
+			return {ending, consuming};
 		}
 		
 	
-- 
2.43.0


From d05df81d0defaa2d13535efcf37db656ac52de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 43/90] fix: do not interpret the body of a HTTP request as
 another request

Bodies of requests other than POST were treated as the following request.
---
 bomba_http.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1d732ee..e756f18 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -705,21 +705,19 @@ public:
 				}
 			}
 
-			if (_state.requestType == ParseState::POST_REQUEST) {
-				if (_state.bodySize == -1) {
+			if (_state.bodySize == -1) {
+				if (_state.requestType == ParseState::POST_REQUEST) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
-			int consuming = _state.parsePosition + _state.bodySize;
+				_state.bodySize = 0;
+			}
+			int64_t consuming = _state.parsePosition + _state.bodySize;
+			if (std::ssize(input) < consuming) { // Any request may have a body, even if it's ignored
+				return {ServerReaction::READ_ON, input.size()};
+			}
 			
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
-- 
2.43.0


From 40e088bc8ed36cf31c5d88de42db0ce01592b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 44/90] fix: allow writing more than 2 GB into a buffer

---
 bomba_core.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 5fd4512..19c86d9 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -447,7 +447,7 @@ private:
 class GeneralisedBuffer {
 	using BufferType = std::span<char>;
 	BufferType _buffer;
-	int _size = 0;
+	int64_t _size = 0;
 
 public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
@@ -465,9 +465,9 @@ public:
 	}
 
 	GeneralisedBuffer& operator+=(std::span<const char> added) {
-		int position = 0;
-		while (position < int(added.size())) {
-			int toCopy = std::min<int>(added.size() - position, remainingSpace());
+		int64_t position = 0;
+		while (position < std::ssize(added)) {
+			int64_t toCopy = std::min<int64_t>(std::ssize(added) - position, remainingSpace());
 			memcpy(_buffer.data(), added.data() + position, toCopy);
 			_buffer = BufferType(_buffer.begin() + toCopy, _buffer.end());
 			_size += toCopy;
@@ -487,7 +487,7 @@ public:
 		return operator+=(std::span<const char>(added, strlen(added)));
 	}
 
-	int size() {
+	int64_t size() {
 		return _size;
 	}
 
@@ -500,7 +500,7 @@ protected:
 		_buffer = newBuffer;
 		_size = 0;
 	}
-	int remainingSpace() const {
+	int64_t remainingSpace() const {
 		return _buffer.size();
 	}
 };
@@ -509,7 +509,7 @@ template <int StaticSize = 1024>
 class StreamingBuffer : public GeneralisedBuffer {
 protected:
 	std::array<char, StaticSize> _basic;
-	int _sizeAtLastFlush = 0;
+	int64_t _sizeAtLastFlush = 0;
 
 	bool bufferFull() override {
 		flush();
-- 
2.43.0


From 40b0a6501fd6b81b7ab56578c4dc666555ea8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 45/90] fix: do not send another HTTP response if responding
 fails after it was started

The client would consider the error response a part of the unfinished response or a response to another request.
---
 bomba_http.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e756f18..4ffc488 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -725,13 +725,15 @@ public:
 				struct WriteStarter : IWriteStarter {
 					Callback<void(std::span<const char>)> writer;
 					bool startedResponse = false;
+					bool sizeMatches = true;
 					int headerSize = 0;
 
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
-						startedResponse = true;
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
+						if (startedResponse)
+							logicError("Only one response can be sent");
 						target += correctIntro;
 						if (!size.has_value()) {
 							target += unsetSize;
@@ -755,12 +757,16 @@ public:
 						std::to_chars(const_cast<char*>(&view[sizeof(correctIntro)]),
 								const_cast<char*>(&view[sizeof(correctIntro) + sizeof(unsetSize)]),
 								view.size() - headerSize);
+						startedResponse = true;
 						writer(view);
 					}
 					void writeKnownSize(std::string_view resourceType, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
 						NonOwningStreamingBuffer<1024> streamingBuffer{writer};
 						startCorrectResponse(streamingBuffer, resourceType, size);
+						startedResponse = true;
+						sizeMatches = false;
 						filler(streamingBuffer);
+						sizeMatches = (streamingBuffer.size() - headerSize == size);
 					}
 				};
 
@@ -769,7 +775,7 @@ public:
 				try {
 					if (_state.requestType == ParseState::GET_REQUEST) {
 						success = _responders.getResponder.get(path, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.startedResponse) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 404 Not Found\r\n"
 									"Content-Length: 73\r\n\r\n"
@@ -780,7 +786,7 @@ public:
 						std::span<char> body = {input.begin() + _state.parsePosition, input.begin() + _state.parsePosition + _state.bodySize};
 						std::string_view contentType = {input.data() + _state.contentType.first, size_t(_state.contentType.second)};
 						success = _responders.postResponder.post(path, contentType, body, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.startedResponse) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 400 Bad Request\r\n"
 									"Content-Length: 66\r\n\r\n"
@@ -793,7 +799,11 @@ public:
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
 							"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
-					writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+					if (!correctResponseWriter.startedResponse)
+						writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+				}
+				if (correctResponseWriter.startedResponse && (!success || !correctResponseWriter.sizeMatches)) {
+					_state.ending = ServerReaction::DISCONNECT; // The response was started but could not be finished correctly
 				}
 				if (success) {
 					if (correctResponseWriter.startedResponse) {
-- 
2.43.0


From 9c5fededfde93b29fba08c0f457867498255b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 46/90] fix: end the status line of HTTP error 501 correctly

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 4ffc488..4c32305 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -814,7 +814,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From ef9b1b7df3df1fb17cb8224c900ce8fe1f3859ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 47/90] fix: do not report success of a web form request that
 could not be performed

---
 bomba_http.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 4c32305..8b3a8fd 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -557,8 +557,9 @@ public:
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
 		NullStructredOutput nullOutput;
-		method->call(&input, nullOutput, {}, {});
-		return true;
+		bool failed = false;
+		bool called = method->call(&input, nullOutput, {}, [&] (std::string_view) { failed = true; });
+		return called && !failed;
 	}
 };
 
-- 
2.43.0


From ca72c831f72efd00130665b0560575dc9bc1c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 48/90] fix: do not report success of a GET request whose call
 could not be performed

---
 bomba_http.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 8b3a8fd..0b18bc3 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -580,7 +580,8 @@ struct DownloadIfFilePresent : IHttpDispatcher {
 			} else {
 				outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
 					typename OutputFormat::Output response(output);
-					method->call(args, response, {}, {});
+					if (!method->call(args, response, {}, [] (std::string_view problem) { remoteError(problem); }))
+						methodNotFoundError("Not a method");
 				});
 			}
 			return true;
-- 
2.43.0


From b228158a19a769161a19cae813ec51e6fb9dcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 49/90] fix: send web form requests to the path of the called
 method

All calls were sent to the root path. Also don't expect a response to a request that could not be written.
---
 bomba_http.hpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 0b18bc3..585aef4 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -847,8 +847,8 @@ class HttpClient : public IRpcResponder {
 			Callback<void(IStructuredOutput&, RequestToken)> request) override {
 		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
-		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+		return postTo(methodName, "application/x-www-form-urlencoded",
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
 		});
@@ -897,10 +897,18 @@ public:
 
 	RequestToken post(std::string_view contentType,
 			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
-		_lastTokenWritten.id++;
+		return postTo("", contentType, request);
+	}
+
+private:
+	template <typename RequestWriter>
+	RequestToken postTo(std::string_view path, std::string_view contentType, const RequestWriter& request) {
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
+		constexpr char correctIntro[] = " HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
+		written += "POST /";
+		written += path;
+		int pathEnd = written.size();
 		written += correctIntro;
 		written += unsetSize;
 		written += "\r\nHost: ";
@@ -909,15 +917,18 @@ public:
 		written += contentType;
 		written += "\r\n\r\n";
 		int sizeBefore = written.size();
-		request(written, RequestToken{_lastTokenWritten});
+		RequestToken token = {_lastTokenWritten.id + 1};
+		request(written, token); // If it throws, nothing is sent
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(&reqView[pathEnd + sizeof(correctIntro) - 1]),
+				const_cast<char*>(&reqView[pathEnd + sizeof(correctIntro) + sizeof(unsetSize) - 2]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
-		return _lastTokenWritten;
+		_lastTokenWritten = token;
+		return token;
 	}
 
+public:
 	RequestToken get(std::string_view resource = "/") {
 		ExpandingBufferType written;
 		constexpr StringLiteral intro = "GET ";
@@ -928,8 +939,8 @@ public:
 		written += mid;
 		written += _virtualHost;
 		written += suffix;
-		_lastTokenWritten.id++;
 		_client.writeRequest(written);
+		_lastTokenWritten.id++;
 		return _lastTokenWritten;
 	}
 
-- 
2.43.0


From 61413a1f124ea91baa0a979e08674c054800322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 50/90] fix: read HTTP responses without hanging, losing them
 or accessing memory outside of them

Checking if a response has arrived consumed it, an unparsable response caused an infinite loop, an exception when reading
a response or a response without content shifted the following ones and an incomplete first line was read out of bounds.
---
 bomba_http.hpp | 104 +++++++++++++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 38 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 585aef4..9e8fbc8 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -868,10 +868,17 @@ class HttpClient : public IRpcResponder {
 
 	bool hasResponse(RequestToken token) override {
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
-			has = true;
-			return true;
+		bool broken = false;
+		_client.tryToGetResponse(token, [&, this] (std::span<char> input, bool identified) {
+			auto result = readResponse(token, input, identified, [&] (std::span<char>, bool) {
+				has = true;
+				return true;
+			});
+			broken = (std::get<0>(result) == ServerReaction::DISCONNECT);
+			return result;
 		});
+		if (broken)
+			remoteError("Invalid HTTP response");
 		return has;
 	}
 
@@ -879,19 +886,53 @@ class HttpClient : public IRpcResponder {
 		int resultCode = 0;
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
+			if (!firstLine.starts_with("HTTP/"))
+				return false;
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+			int separator2 = separator1;
+			while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
-			return true;
+			if (separator2 > std::ssize(firstLine))
+				return false;
+			auto read = std::from_chars(firstLine.data() + separator1, firstLine.data() + separator2, resultCode);
+			return (read.ec == std::errc() && read.ptr == firstLine.data() + separator2 && resultCode >= 200 && resultCode < 600);
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
 	};
 
+	std::tuple<ServerReaction, RequestToken, int64_t> readResponse(RequestToken token, std::span<char> input, bool identified,
+				Callback<bool(std::span<char> message, bool success)> reader) {
+		ParseState state;
+		// Locate the header's span
+		auto [reaction, position] = state.parse(input);
+		if (reaction != ServerReaction::OK) {
+			return {reaction, RequestToken{}, position};
+		}
+
+		if (state.bodySize == -1) {
+			if (state.resultCode != 204 && state.resultCode != 304) // Impossible to tell where it ends
+				return {ServerReaction::DISCONNECT, RequestToken{}, 0};
+			state.bodySize = 0;
+		}
+		int64_t end = state.parsePosition + state.bodySize;
+		if (std::ssize(input) < end) {
+			return {ServerReaction::READ_ON, RequestToken{}, input.size()};
+		}
+
+		if (!identified) {
+			_lastTokenRead.id++;
+			if (token != _lastTokenRead)
+				return {ServerReaction::WRONG_REPLY, _lastTokenRead, end};
+		}
+
+		reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + end),
+				(state.resultCode >= 200 && state.resultCode < 300));
+		return {ServerReaction::OK, token, end};
+	}
+
 public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
@@ -946,40 +987,27 @@ public:
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
+		std::exception_ptr failure = nullptr;
 		while (!done) {
-			ParseState state;
-			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
-						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-				// Locate the header's span
-				if (state.bodySize == -1) {
-					auto [reaction, position] = state.parse(input);
-					if (reaction == ServerReaction::DISCONNECT) {
-						done = true;
-					}
-					if (reaction != ServerReaction::OK) {
-						return {reaction, RequestToken{}, position};
+			bool mayContinue = false;
+			_client.getResponse(token, [&, this] (std::span<char> input, bool identified) {
+				auto result = readResponse(token, input, identified, [&] (std::span<char> message, bool success) {
+					done = true;
+					try {
+						return reader(message, success);
+					} catch (...) { // The response is read and must be removed from the stream even if the reader refuses it
+						failure = std::current_exception();
+						return false;
 					}
-				}
-
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
-					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
-				}
-			
-				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int64_t offset = state.parsePosition + std::max<int64_t>(0, state.bodySize);
-					state = ParseState{};
-					_lastTokenRead.id++;
-					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
-				}					
-				done = true;
-
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
-						(state.resultCode >= 200 && state.resultCode < 300));
-				if (!identified)
-					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max<int64_t>(0, state.bodySize)};
+				});
+				mayContinue = (std::get<0>(result) != ServerReaction::DISCONNECT);
+				return result;
 			});
+			if (!done && !mayContinue)
+				remoteError("Invalid HTTP response");
 		}
+		if (failure)
+			std::rethrow_exception(failure);
 	}
 };
 
-- 
2.43.0


From 6430b6d95e04e491d23b06aa5a4d427fc515d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 51/90] fix: keep the order of binary responses after failing
 to read one

---
 bomba_binary_protocol.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 2393c40..c3088da 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -400,11 +400,18 @@ public:
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		bool found = false;
+		std::exception_ptr failure = nullptr;
 		auto operation = [&] (IStructuredInput& input) {
 			found = true;
-			reader(input);
+			try {
+				reader(input);
+			} catch (...) { // The response must be removed from the stream even if its content is refused
+				failure = std::current_exception();
+			}
 		};
 		_tcpClient.getResponse(token, getResponseReader(token, operation));
+		if (failure)
+			std::rethrow_exception(failure);
 		return found;
 	}
 	bool hasResponse(RequestToken token) override {
-- 
2.43.0


From 0d15694ff866039f0613b7834fec8db97bfc5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 52/90] fix: do not lose, repeat or wait for already received
 responses in SyncNetworkClient

Responses received together with another one, received in parts or found by checking their availability were lost, stored
responses were never removed, closed connections caused endless loops or terminated the program by SIGPIPE.
---
 bomba_sync_client.hpp | 60 +++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..bbdeafb 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -27,44 +27,59 @@ class SyncNetworkClient : public ITcpClient {
 		_socket.connect(_server);
 	}
 
+	// If waiting, the response is read and forgotten, otherwise it's kept to be read later
 	template <bool doWait, typename Reader>
 	void searchRequests(RequestToken tokenSought, Reader&& reader) {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
-			if (reaction == ServerReaction::READ_ON)
-				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			if constexpr(doWait) {
+				std::vector<char> response = std::move(found->second);
+				_responses.erase(found);
+				reader(response, true);
+			} else {
+				reader(found->second, true);
+			}
+			return;
 		}
 
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			// More responses could have been received at once
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT) {
+					std::error_code ignored;
+					_socket.shutdown(Net::socket_base::shutdown_both, ignored); // Nothing in the stream makes sense any more
+					_leftovers.clear();
+					return;
+				}
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait)
+					_responses.insert_or_assign(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position));
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
+			auto flags = doWait ? Net::socket_base::message_flags() : Net::socket_base::message_flags(MSG_DONTWAIT);
+			auto received = _socket.receive(Net::buffer(responseBuffer), flags, error);
 			if constexpr(!doWait) {
-				if (_socket.available() == 0)
-					break;
+				if (error == std::errc::operation_would_block || error == std::errc::resource_unavailable_try_again)
+					return;
 			}
-			auto received = _socket.read_some(Net::buffer(responseBuffer), error);
 			if (error) {
 				remoteError(error.message().c_str());
 				break;
 			}
-			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
+			if (received == 0) {
+				remoteError("Connection was closed");
+				break;
 			}
+			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
 
@@ -77,7 +92,8 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(Net::buffer(NetStringView(written.data(), written.size())));
+			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())),
+					Net::socket_base::message_flags(MSG_NOSIGNAL));
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From d57c14aac2f55c408718ec77ebb20140f565feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 53/90] fix: encode and decode all characters in web forms
 correctly

---
 bomba_http.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9e8fbc8..dca6615 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -190,7 +190,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
@@ -205,7 +205,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				}
 			};
 			auto urlDecode = [&input] (int index) {
-				if (index + 3 > std::ssize(input)) [[unlikely]]
+				if (index + 3 > std::ssize(input) || input[index] != '%') [[unlikely]]
 					return 0;
 				int escaped = {};
 				std::from_chars(&input[index + 1], &input[index + 3], escaped, 16);
@@ -220,8 +220,12 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 					if (numberEnd + 2 < std::ssize(input)) [[likely]] {
 						if (input[numberEnd] == '%' && input[numberEnd + 1] == '3'
 								&& (input[numberEnd + 2] == 'b' || input[numberEnd + 2] == 'B')) {
-							std::from_chars(&input[i + 6], &input[numberEnd], decoded);
-							i = numberEnd;
+							int unicode = 0;
+							auto [end, error] = std::from_chars(&input[i + 6], &input[numberEnd], unicode);
+							if (error == std::errc() && unicode <= 0x10ffff) [[likely]] {
+								decoded = unicode;
+								i = numberEnd;
+							}
 						}
 					}
 				}
@@ -256,7 +260,12 @@ void mangleHttpResponse(std::string_view input, StringType& output) {
 		unsigned char letter = *reinterpret_cast<const unsigned char*>(&input[i]);
 		if (letter == ' ')
 			output += '+';
-		else if (letter <= 0x7f) [[likely]]
+		else if (letter == '&' && i + 1 < std::ssize(input) && input[i + 1] == '#') [[unlikely]] {
+			encodeOne('&'); // It would be considered an encoded unicode character
+			encodeOne('#');
+			output += "38";
+			encodeOne(';');
+		} else if (letter <= 0x7f) [[likely]]
 			encodeOne(letter);
 		else {
 			int length = 1;
-- 
2.43.0


From 574f67716cd3d4d9aa8c5fe910774267c43c5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 54/90] fix: read web form data correctly

Empty or unknown fields caused the following ones to be skipped or memory behind the data to be accessed. Encoded integers
were not decoded, long numbers were written with characters behind them and numbers with exponents were encoded incorrectly.
---
 bomba_http.hpp | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index dca6615..f59b005 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -347,6 +347,8 @@ struct HtmlMessageEncoding {
 			int demangledPos = 0;
 			if (demangled[demangledPos] == '-')
 				demangledPos++;
+			if (demangledPos >= std::ssize(demangled)) [[unlikely]]
+				return TYPE_STRING;
 			bool exponentWasUsed = false;
 			bool decimalWasUsed = false;
 			bool canBeInt = true;
@@ -355,28 +357,29 @@ struct HtmlMessageEncoding {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
+					demangledPos++;
+					if (demangledPos < std::ssize(demangled) && (demangled[demangledPos] == '-' || demangled[demangledPos] == '+'))
+						demangledPos++;
 					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
 						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
-						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
 					if (decimalWasUsed || exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
+					continue;
 				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				if (demangled[demangledPos] < '0' || demangled[demangledPos] > '9')
 					return TYPE_STRING;
 			}
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
 		}
 
 		int64_t readInt(Flags) final override {
-			int end = getEnd();
+			std::string_view demangled = demangleTillEnd();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
-			_position = end;
+			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
 			return result;
@@ -385,7 +388,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
@@ -418,25 +420,25 @@ struct HtmlMessageEncoding {
 					fail("Type doesn't support nested object");
 			_objectStarted = true;
 			int index = 0;
-			for (; _position < std::ssize(_contents); _position++) {
-				if (_contents[_position] == '&')
-					_position++;
+			bool goOn = true;
+			for (; goOn && _position < std::ssize(_contents); _position++) {
 				int start = _position;
-				while (_position < std::ssize(_contents) && _contents[_position] != '=')
+				while (_position < std::ssize(_contents) && _contents[_position] != '=' && _contents[_position] != '&')
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
-				onEach(_demangled, index);
-				index++;
+				if (_position < std::ssize(_contents) && _contents[_position] == '=')
+					_position++;
+				if (_position > start) {
+					goOn = onEach(_demangled, index);
+					index++;
+				}
+				_position = getEnd(); // Will be moved behind &
 			}
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
-			while (_position < std::ssize(_contents) && _contents[_position] != '&')
-				_position++;
+			_position = getEnd();
 		}
 
 		bool readOptional(Flags, Callback<> readValue) override {
@@ -459,10 +461,10 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32;
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			auto written = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			mangleHttpResponse(std::string_view(bytes.data(), written.ptr - bytes.data()), _contents); // There may be a +
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
@@ -505,7 +507,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From 15db4bc1f9c2234bf5a7a31414f9db1f4e5b429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 55/90] fix: refuse JSON-RPC responses without identifiers

---
 bomba_json_rpc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..aa3eecf 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -256,6 +256,7 @@ public:
 				return false;
 			typename Json::Input input(std::string_view(message.data(), message.size()));
 			bool okay = true;
+			bool identified = false;
 			auto fail = [&okay] (std::string_view problem) {
 				parseError(problem);
 				okay = false;
@@ -270,6 +271,7 @@ public:
 					if (input.readInt(noFlags) != token.id) {
 						fail("Out of order response");
 					}
+					identified = true;
 				} else if (*nextName == "error") {
 					input.readObject(noFlags, [&] (std::optional<std::string_view> nextErrorElement, int) {
 						if (*nextErrorElement == "message") {
@@ -291,6 +293,8 @@ public:
 				}
 				return true;
 			});
+			if (!identified)
+				fail("Response without identifier");
 			retval = input.good;
 			return okay;
 		});
-- 
2.43.0


From 718623b82783aff8651d097328963b8d7424a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 56/90] fix: answer every JSON-RPC request exactly once and as
 specified

The call was started before the rest of the request was examined, so the response depended on the order of members, ids
following an error were lost, requests with errors were answered by malformed objects or not at all, an invalid element of
a batch affected the others and nonsensical requests were answered twice.
---
 bomba_json_rpc.hpp | 238 +++++++++++++++++++++++++++------------------
 1 file changed, 144 insertions(+), 94 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index aa3eecf..d4783f1 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -17,6 +17,7 @@
 #include <sstream>
 #include <cstring>
 #include <cmath>
+#include <variant>
 
 namespace Bomba {
 
@@ -37,10 +38,36 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		constexpr auto noFlags = Json::Output::Flags::NONE;
 		bool failed = false;
 		bool responding = false;
+		bool resultWritten = false;
 		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
+		std::variant<std::monostate, std::nullptr_t, int64_t, double, LocalStringType> id; // Empty if it's a notification
 
-		auto writeId = [&] {
+		auto readId = [&] {
+			auto identified = input.identifyType(noFlags);
+			if (identified == IStructuredInput::TYPE_INTEGER) {
+				auto position = input.storePosition(noFlags);
+				try {
+					id = input.readInt(noFlags);
+				} catch (RemoteError&) { // Too large
+					input.restorePosition(noFlags, position);
+					id = input.readFloat(noFlags);
+				}
+			} else if (identified == IStructuredInput::TYPE_STRING) {
+				LocalStringType text;
+				text += input.readString(noFlags);
+				id = std::move(text);
+			} else if (identified == IStructuredInput::TYPE_FLOAT)
+				id = input.readFloat(noFlags);
+			else if (identified == IStructuredInput::TYPE_NULL) {
+				input.readNull(noFlags);
+				id = nullptr;
+			} else {
+				input.skipObjectElement(noFlags);
+				return false;
+			}
+			return true;
+		};
+		auto startResponse = [&] {
 			responding = true;
 			onResponseStarted();
 			output.startWritingObject(noFlags, 3);
@@ -48,20 +75,14 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			output.writeString(noFlags, "2.0");
 			output.introduceObjectMember(noFlags, "id", 1);
 
-			auto identified = input.identifyType(noFlags);
-			if (identified == IStructuredInput::TYPE_INTEGER)
-				output.writeInt(noFlags, input.readInt(noFlags));
-			else if (identified == IStructuredInput::TYPE_STRING)
-				output.writeString(noFlags, input.readString(noFlags));
-			else if (identified == IStructuredInput::TYPE_FLOAT)
-				output.writeFloat(noFlags, input.readFloat(noFlags));
-			else if (identified == IStructuredInput::TYPE_NULL) {
-				input.readNull(noFlags);
-				output.writeNull(noFlags);
-			} else {
-				input.skipObjectElement(noFlags);
+			if (auto intId = std::get_if<int64_t>(&id))
+				output.writeInt(noFlags, *intId);
+			else if (auto floatId = std::get_if<double>(&id))
+				output.writeFloat(noFlags, *floatId);
+			else if (auto stringId = std::get_if<LocalStringType>(&id))
+				output.writeString(noFlags, *stringId);
+			else
 				output.writeNull(noFlags);
-			}
 		};
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
 			failed = true;
@@ -74,93 +95,107 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			errorWritten.writeString("message", message);
 		};
 
+		// The whole request is examined before doing anything, its members can be in any order and any of them can be invalid
+		const IRemoteCallable* method = nullptr;
+		bool methodNamed = false;
+		bool versionKnown = false;
+		const char* problem = nullptr;
 		try {
-			const IRemoteCallable* method = nullptr;
-			bool called = false;
-			auto call = [&] () {
-				auto introduceResult = [&] () {
-					if (responding)
-						output.introduceObjectMember(noFlags, "result", 2);
-				};
-				auto formerPosition = input.storePosition(noFlags);
-				if (method) [[likely]] {
-					called = true; // If it throws, it's still considered called
-					if (paramsPosition) {
-						input.restorePosition(noFlags, paramsPosition);
-					}
-					if (responding)
-						method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
-					else {
-						NullStructredOutput nullOutput;
-						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
-					}
-				}
-				return formerPosition;
-			};
-
-			// The logic that must be upheld:
-			// * every loop advances by 1 entry (if position is modified, it must be restored)
-			// * finding id starts the response, finding params stores their position and finding method causes its lookup
-			// * it's called immediately when method, params and id are all known
-			// * if something is missing, it's called after the loop
-			input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
+			if (input.identifyType(noFlags) != IStructuredInput::TYPE_OBJECT) {
+				problem = "Request is not an object";
+				input.skipObjectElement(noFlags);
+			} else input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
 				if (*nextName == "jsonrpc") {
-					if (input.readString(noFlags) != "2.0") [[unlikely]] {
-						introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
-						return false;
+					if (input.identifyType(noFlags) != IStructuredInput::TYPE_STRING) [[unlikely]] {
+						problem = "Unknown JSON-RPC version";
+						input.skipObjectElement(noFlags);
+					} else if (input.readString(noFlags) != "2.0") [[unlikely]] {
+						problem = "Unknown JSON-RPC version";
 					}
+					versionKnown = true;
 				} else if (*nextName == "id") {
-					if (!called) {
-						writeId();
-						if (method && paramsPosition) {
-							input.restorePosition(noFlags, call());
-						}
-					} else
-						input.skipObjectElement(noFlags);
+					if (!readId()) [[unlikely]]
+						problem = "Invalid identifier";
 				} else if (*nextName == "method") {
-					if (!method) {
+					if (input.identifyType(noFlags) == IStructuredInput::TYPE_STRING) [[likely]] {
 						auto path = input.readString(noFlags);
 						method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
-						if (!method) [[unlikely]] {
-							introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
-						}
-						if (responding && paramsPosition) {
-							input.restorePosition(noFlags, call());
-						}
+						methodNamed = true;
 					} else
 						input.skipObjectElement(noFlags);
 				} else if (*nextName == "params") {
-					paramsPosition = input.storePosition(noFlags);
-					if (method && responding) {
-						call();
-					} else {
-						input.skipObjectElement(noFlags);
-					}
+					auto identified = input.identifyType(noFlags);
+					if (identified == IStructuredInput::TYPE_OBJECT || identified == IStructuredInput::TYPE_ARRAY) [[likely]]
+						paramsPosition = input.storePosition(noFlags);
+					else
+						problem = "Parameters have to be an object";
+					input.skipObjectElement(noFlags);
 				} else [[unlikely]] {
-					introduceError("Unexpected member in request", JsonRpcError::INVALID_REQUEST);
-					return false;
+					problem = "Unexpected member in request";
+					input.skipObjectElement(noFlags);
 				}
-				return !failed;
+				return true;
 			});
-			if (!failed && !called) {
-				if (!method) [[unlikely]] {
-					introduceError("Method name not found in request", JsonRpcError::METHOD_NOT_FOUND);
+			if (!versionKnown) [[unlikely]]
+				problem = "Unknown JSON-RPC version";
+			if (!methodNamed) [[unlikely]]
+				problem = "Method name not found in request";
+		} catch (std::exception& e) {
+			id = nullptr;
+			startResponse();
+			introduceError(e.what(), JsonRpcError::PARSE_ERROR);
+			output.endWritingObject(noFlags);
+			return false;
+		}
+
+		auto endPosition = input.storePosition(noFlags);
+		if (problem || !std::holds_alternative<std::monostate>(id)) // Invalid requests are answered even if they are not identified
+			startResponse();
+
+		auto introduceResult = [&] () {
+			resultWritten = true;
+			if (responding)
+				output.introduceObjectMember(noFlags, "result", 2);
+		};
+		try {
+			if (problem) [[unlikely]] {
+				introduceError(problem, JsonRpcError::INVALID_REQUEST);
+			} else if (method) [[likely]] {
+				if (paramsPosition) {
+					input.restorePosition(noFlags, paramsPosition);
+				}
+				if (responding)
+					method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
+				else {
+					NullStructredOutput nullOutput;
+					method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 				}
-				input.restorePosition(noFlags, call());
 			}
-		} catch (ParseError& e) {
-			introduceError(e.what(), JsonRpcError::PARSE_ERROR);
-		} catch (RemoteError& e) {
-			introduceError(e.what(), JsonRpcError::INVALID_PARAMS);
-		} catch (std::exception& e) {
-			introduceError(e.what(), JsonRpcError::INTERNAL_ERROR);
+			if (!failed && !resultWritten) [[unlikely]] {
+				introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
+			}
+		} catch (...) {
+			if (responding && (resultWritten || failed))
+				throw; // Too late to describe it in the response
+			try {
+				throw;
+			} catch (ParseError& e) {
+				introduceError(e.what(), JsonRpcError::INVALID_PARAMS);
+			} catch (RemoteError& e) {
+				introduceError(e.what(), JsonRpcError::INVALID_PARAMS);
+			} catch (std::exception& e) {
+				introduceError(e.what(), JsonRpcError::INTERNAL_ERROR);
+			} catch (...) {
+				introduceError("Unknown error", JsonRpcError::INTERNAL_ERROR);
+			}
 		}
+		input.restorePosition(noFlags, endPosition);
 
 		if (responding) {
 			output.endWritingObject(noFlags);
 		}
 
-		return !failed;
+		return true;
 	}
 
 public:
@@ -172,22 +207,38 @@ public:
 			return false;
 		}
 
-		bool result = false;
-		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
-			constexpr auto noFlags = Json::Output::Flags::NONE;
+		constexpr auto noFlags = Json::Output::Flags::NONE;
+
+		typename Json::Input input(std::string_view(request.data(), request.size()));
+		auto inputType = input.identifyType(noFlags);
+		if (inputType != IStructuredInput::TYPE_ARRAY && inputType != IStructuredInput::TYPE_OBJECT)
+			return false; // The request was total nonsense
 
-			typename Json::Input input(std::string_view(request.data(), request.size()));
+		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			typename Json::Output output(response);
 
-			auto inputType = input.identifyType(noFlags);
-			if (inputType == IStructuredInput::TYPE_ARRAY) {
+			bool isArray = (inputType == IStructuredInput::TYPE_ARRAY);
+			if (isArray) {
+				auto arrayStart = input.storePosition(noFlags);
+				try {
+					input.skipObjectElement(noFlags);
+					input.restorePosition(noFlags, arrayStart);
+					input.startReadingArray(noFlags);
+					isArray = input.nextArrayElement(noFlags);
+				} catch (std::exception&) {
+					isArray = false;
+				}
+				if (!isArray) // If the array is incomplete or empty, it's answered as a single erroneous request
+					input.restorePosition(noFlags, arrayStart);
+			}
+			if (isArray) {
 				// Handle an array of requests
-				input.startReadingArray(noFlags);
-				output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
 				int resultArrayIndex = 0;
 				while (input.nextArrayElement(noFlags)) {
 					auto previousPosition = input.storePosition(noFlags);
 					bool success = respondInternal(input, output, [&] () mutable {
+						if (resultArrayIndex == 0)
+							output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
 						output.introduceArrayElement(noFlags, resultArrayIndex);
 						resultArrayIndex++;
 					});
@@ -197,14 +248,13 @@ public:
 					}
 				}
 				input.endReadingArray(noFlags);
-				output.endWritingArray(noFlags);
-				result = true; // Http should not report an error here
-			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
+				if (resultArrayIndex > 0)
+					output.endWritingArray(noFlags);
+			} else {
 				respondInternal(input, output, {});
-				result = true;
 			}
 		});
-		return result; // The request was total nonsense
+		return true;
 	}
 };
 
-- 
2.43.0


From adebb4cc944adf923fcac025bd187ef5ae0092b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 57/90] fix: refuse incomplete JSON values even if they are
 skipped

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 3454a8f..526b6b3 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -333,7 +333,7 @@ struct BasicJson {
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-			} while (_contents.begin() + _position < _contents.end());
+			} while (_contents.begin() + _position < _contents.end() || (depth > 0 && good));
 		}
 
 		bool readOptional(Flags flags, Callback<> readValue) override {
-- 
2.43.0


From 3df6a46a13d8ed361928446ca82bf4764b039469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 58/90] fix: examine JSON-RPC batches using a separate reader

---
 bomba_json_rpc.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index d4783f1..5e4618e 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -219,20 +219,19 @@ public:
 
 			bool isArray = (inputType == IStructuredInput::TYPE_ARRAY);
 			if (isArray) {
-				auto arrayStart = input.storePosition(noFlags);
 				try {
-					input.skipObjectElement(noFlags);
-					input.restorePosition(noFlags, arrayStart);
-					input.startReadingArray(noFlags);
-					isArray = input.nextArrayElement(noFlags);
+					typename Json::Input examined(std::string_view(request.data(), request.size()));
+					examined.skipObjectElement(noFlags);
+					examined.restorePosition(noFlags, input.storePosition(noFlags));
+					examined.startReadingArray(noFlags);
+					isArray = examined.nextArrayElement(noFlags);
 				} catch (std::exception&) {
-					isArray = false;
+					isArray = false; // If the array is incomplete or empty, it's answered as a single erroneous request
 				}
-				if (!isArray) // If the array is incomplete or empty, it's answered as a single erroneous request
-					input.restorePosition(noFlags, arrayStart);
 			}
 			if (isArray) {
 				// Handle an array of requests
+				input.startReadingArray(noFlags);
 				int resultArrayIndex = 0;
 				while (input.nextArrayElement(noFlags)) {
 					auto previousPosition = input.storePosition(noFlags);
-- 
2.43.0


From 77ae1e4dc5e573ba02d60bf99098d2b929f3b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 59/90] fix: answer the requests preceding invalid JSON in a
 JSON-RPC batch

---
 bomba_json_rpc.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 5e4618e..33fde46 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -233,7 +233,14 @@ public:
 				// Handle an array of requests
 				input.startReadingArray(noFlags);
 				int resultArrayIndex = 0;
-				while (input.nextArrayElement(noFlags)) {
+				auto isPossible = [] (auto&& operation) {
+					try {
+						return operation();
+					} catch (std::exception&) { // Invalid JSON
+						return false;
+					}
+				};
+				while (isPossible([&] { return input.nextArrayElement(noFlags); })) {
 					auto previousPosition = input.storePosition(noFlags);
 					bool success = respondInternal(input, output, [&] () mutable {
 						if (resultArrayIndex == 0)
@@ -241,12 +248,14 @@ public:
 						output.introduceArrayElement(noFlags, resultArrayIndex);
 						resultArrayIndex++;
 					});
-					if (!success) {
+					if (!success && !isPossible([&] {
 						input.restorePosition(noFlags, previousPosition);
 						input.skipObjectElement(noFlags);
+						return true;
+					})) {
+						break; // Impossible to tell where the next one starts
 					}
 				}
-				input.endReadingArray(noFlags);
 				if (resultArrayIndex > 0)
 					output.endWritingArray(noFlags);
 			} else {
-- 
2.43.0


From d5e9daccc1f8f6131231d004c1a12af0b87e4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 60/90] fix: do not serve files outside the folder

If the part of the path after the first character was absolute, the folder was ignored.
---
 bomba_download_server.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..f2000aa 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -109,7 +109,8 @@ public:
 		if (editedPath.empty() || editedPath.back() == '/') {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			if (editedPath[0] != '/' || std::filesystem::path(editedPath.substr(1)).is_absolute()
+					|| editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
@@ -118,7 +119,8 @@ public:
 		std::filesystem::path fullPath = _root;
 		fullPath.append(editedPath.substr(1));
 
-		if (!std::filesystem::exists(fullPath) || !std::filesystem::is_regular_file(fullPath)) {
+		std::error_code error; // Weird names might not be possible to check
+		if (!std::filesystem::exists(fullPath, error) || !std::filesystem::is_regular_file(fullPath, error)) {
 			std::cout << "Can't send " << fullPath << std::endl;
 			return false;
 		}
-- 
2.43.0


From b491110d8531752486b2f990d920e5244f904907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 61/90] fix: serve files without extensions or with uppercase
 extensions

---
 bomba_download_server.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index f2000aa..689b901 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -45,9 +45,14 @@ protected:
 	}
 
 	std::string extensionDescription(std::string_view extension) {
-		auto foundExtension = _extensions.find(std::string(extension));
+		std::string lowercase;
+		for (char c : extension)
+			lowercase += std::tolower(static_cast<unsigned char>(c));
+		auto foundExtension = _extensions.find(lowercase);
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.size() < 2) {
+			return "application/octet-stream";
 		} else {
 			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
 		}
@@ -88,7 +93,7 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
+			std::string extension = std::filesystem::path(path).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From e1c6e4daf5cd23484a3eeb4c5892d311b707b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 62/90] fix: do not send uninitialised memory instead of files
 that are unreadable, shortened or too large

---
 bomba_download_server.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 689b901..7419b7c 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -131,13 +131,18 @@ public:
 		}
 		uintmax_t size = std::filesystem::file_size(fullPath);
 
-		std::ifstream file(fullPath);
+		std::ifstream file(fullPath, std::ios::binary);
+		if (!file) {
+			std::cout << "Can't read " << fullPath << std::endl;
+			return false;
+		}
 		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-				int amount = std::min<int>(buffer.size(), size - position);
-				file.read(buffer.data(), amount);
+				int amount = std::min<uintmax_t>(buffer.size(), size - position);
+				if (!file.read(buffer.data(), amount))
+					throw std::runtime_error("The file could not be read whole");
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
 			}
-- 
2.43.0


From e258e610903e8237aebaea1a3aba70272dde0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 63/90] fix: allow registering generated files while the server
 is running

Registering was not synchronised with requests and did not replace previously registered pages in CachingFileServer.
---
 bomba_download_server.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 7419b7c..a060a59 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -18,6 +18,8 @@
 #include <iterator>
 #include <functional>
 #include <iostream>
+#include <memory>
+#include <mutex>
 
 namespace Bomba {
 
@@ -81,28 +83,37 @@ private:
 		FileProviderType provider;
 		bool allKnownAtOnce = false;
 	};
-	std::unordered_map<std::string, GeneratedFileEntry> _generatedFiles;
+	std::unordered_map<std::string, std::shared_ptr<GeneratedFileEntry>> _generatedFiles;
+	std::shared_mutex _mutex;
 
 public:
 	DynamicFileServer(const std::filesystem::path& path) : FileServerBase(path) {}
 
 	void addGeneratedFile(std::string_view name, bool allKnownAtOnce, FileProviderType&& provider) {
-		_generatedFiles['/' + std::string(name)] = GeneratedFileEntry{provider, allKnownAtOnce};
+		auto entry = std::make_shared<GeneratedFileEntry>(GeneratedFileEntry{provider, allKnownAtOnce});
+		std::lock_guard lock(_mutex);
+		_generatedFiles['/' + std::string(name)] = entry;
 	}
 
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
-		auto foundGenerated = _generatedFiles.find(std::string(path));
-		if (foundGenerated != _generatedFiles.end()) {
+		std::shared_ptr<GeneratedFileEntry> generated;
+		{
+			std::shared_lock lock(_mutex);
+			auto foundGenerated = _generatedFiles.find(std::string(path));
+			if (foundGenerated != _generatedFiles.end())
+				generated = foundGenerated->second; // May be replaced while it's used
+		}
+		if (generated) {
 			std::string extension = std::filesystem::path(path).extension().string();
-			if (foundGenerated->second.allKnownAtOnce) {
-				foundGenerated->second.provider([&] (std::span<const char> chunk) {
+			if (generated->allKnownAtOnce) {
+				generated->provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
 						buffer += chunk;
 					});
 				});
 			} else {
 				outputProvider.writeUnknownSize(extensionDescription(extension), [&] (GeneralisedBuffer& buffer) {
-					foundGenerated->second.provider([&] (std::span<const char> chunk) {
+					generated->provider([&] (std::span<const char> chunk) {
 						buffer += chunk;
 					});
 				});
@@ -227,11 +238,15 @@ public:
 		clearModifiers();
 		reloadInternal();
 	}
+	void addModifier(std::function<void()>&& modifier) {
+		std::lock_guard lock(_mutex);
+		FileServerBase::addModifier(std::move(modifier));
+	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-			_cache.insert(std::make_pair(name, std::move(entry)));
+			_cache.insert_or_assign(name, std::move(entry));
 		});
 	}
 	void addGeneratedFile(std::string_view name, const std::string& contents) {
-- 
2.43.0


From 28dc5d9e93bb30c81d2e5355e211548fc6aff74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 64/90] fix: do not let a disconnected client or a failing
 responder stop the whole TCP server

Writing to a socket closed by the client terminated the program by SIGPIPE or by an uncaught exception and only parts of
longer responses could be written.
---
 bomba_tcp_server.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..7816bae 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -191,9 +191,22 @@ class TcpServer {
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
-			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
-			});
+			bool sendingFailed = false;
+			try {
+				auto result = _responder.respond(data, [&, this] (std::span<const char> output) {
+					while (!output.empty() && !sendingFailed) {
+						std::error_code error;
+						auto sent = _socket.send(Net::buffer(output.data(), output.size()),
+								Net::socket_base::message_flags(MSG_NOSIGNAL), error);
+						if (error && error != std::errc::interrupted)
+							sendingFailed = true; // The client has disconnected
+						output = output.subspan(sent);
+					}
+				});
+				if (!sendingFailed)
+					return result;
+			} catch (...) {} // Nothing that happens in one session may affect the others
+			return {ServerReaction::DISCONNECT, 0};
 		}
 
 		void notifyMessageWasParsed() override {
-- 
2.43.0


From 105a4b7bc7910abd25d986a84d63fe786060d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 65/90] fix: keep accepting connections after failing to accept
 one

---
 bomba_tcp_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 7816bae..6c2c7ce 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -224,6 +224,8 @@ class TcpServer {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
 			if (error) {
 //				std::cout << "Error: " << error.message() << std::endl;
+				if (error != std::errc::operation_canceled)
+					startSession(); // Failing to accept one connection doesn't mean there will be no more
 				return;
 			}
 			{
-- 
2.43.0


From 3310554b0ce14bcf9d7a7a919ff5724fa7fcb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 66/90] fix: allow reading the statistics of a TCP server while
 it's running

---
 bomba_tcp_server.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 6c2c7ce..6b8de6b 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -8,6 +8,7 @@
 #include <experimental/net>
 #include <vector>
 #include <chrono>
+#include <atomic>
 
 #include <iostream>
 
@@ -147,8 +148,8 @@ class TcpServer {
 	Net::io_context _context;
 	Net::ip::tcp::endpoint _endpoint;
 	Net::ip::tcp::acceptor _acceptor = {_context, _endpoint};
-	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
-	int64_t _totalResponses = 0;
+	std::atomic<int64_t> _totalResponseTime = 0; // In nanoseconds, can be read from other threads
+	std::atomic<int64_t> _totalResponses = 0;
 
 	struct Session : ITcpServerSession {
 		Net::ip::tcp::socket _socket;
@@ -175,7 +176,7 @@ class TcpServer {
 					readSome();
 				}
 				auto endTime = std::chrono::steady_clock::now();
-				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime);
+				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime).count();
 
 				if (!expectingMore) {
 					cancel();
@@ -269,7 +270,8 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		return _totalResponseTime / _totalResponses;
+		int64_t responses = _totalResponses;
+		return std::chrono::nanoseconds(responses ? _totalResponseTime / responses : 0);
 	}
 };
 
-- 
2.43.0


From d20d5c08beb0904c59d0336b1a4c16c9f6cf8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 67/90] fix: find members of serialisable classes whose first
 base class is another one

---
 bomba_object.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index ddd18ed..f217a70 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -279,6 +279,7 @@ class Serialisable : public IDescribableSerialisable {
 				if (start > int(sizeof(Child))) throw std::logic_error("Reflection failed");
 				start++;
 			}
+			start -= setupData.parentOffset; // Serialisable doesn't have to be the first base class
 #ifdef NO_DEFECT_REPORT_2118
 			result[i].offset = start;
 #else
@@ -451,7 +452,8 @@ protected:
 					+ sizeof(Serialisable<Child>));
 			uint8_t garbageNumber = (_setupInstance->initState == InitialisationState::INITIALISING)
 					? garbageNumber1 : garbageNumber2;
-			memset(start, garbageNumber, sizeof(Child) - sizeof(Serialisable<Child>));
+			uint64_t end = reinterpret_cast<uint64_t>(_setupInstance->instance) + sizeof(Child);
+			memset(start, garbageNumber, end - reinterpret_cast<uint64_t>(start));
 		}
 	}
 	Serialisable(const Serialisable&) = default;
-- 
2.43.0


From dfa6e46097525cf6ada4f5ffb606457f1a1bd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 68/90] fix: find members of serialisable classes whose first
 bytes are not initialised

---
 bomba_object.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index f217a70..e6c04a6 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -195,8 +195,11 @@ class Serialisable : public IDescribableSerialisable {
 	constexpr static int8_t garbageNumber1 = 13;
 	constexpr static int8_t garbageNumber2 = -13;
 
+	constexpr static int UNKNOWN_OFFSET = -1;
+
 	struct MappingElement {
 		int size;
+		int knownOffset = UNKNOWN_OFFSET;
 		std::array<int, 2> lastInitialisedBefore;
 		const char* name;
 	};
@@ -275,7 +278,9 @@ class Serialisable : public IDescribableSerialisable {
 		for (int i = 0; i < memberCount; i++) {
 			int start = std::max(setupData.elements[i].lastInitialisedBefore[0],
 					setupData.elements[i].lastInitialisedBefore[1]);
-			while (childBytes[0][start] == garbageNumber1 && childBytes[1][start] == garbageNumber2) {
+			if (setupData.elements[i].knownOffset != UNKNOWN_OFFSET)
+				start = setupData.elements[i].knownOffset;
+			else while (childBytes[0][start] == garbageNumber1 && childBytes[1][start] == garbageNumber2) {
 				if (start > int(sizeof(Child))) throw std::logic_error("Reflection failed");
 				start++;
 			}
@@ -327,6 +332,28 @@ class Serialisable : public IDescribableSerialisable {
 				return T(std::get<Enumeration>(_args)...);
 			}
 		}
+
+		template <typename T>
+		T makeLocatedType(MappingElement& element) const {
+			T made = makeType<T>(std::make_index_sequence<sizeof...(Args)>()); // Constructed in its final location if possible
+			int64_t offset = reinterpret_cast<int64_t>(&made) - reinterpret_cast<int64_t>(Serialisable::_setupInstance->instance);
+			if (offset >= 0 && offset < int64_t(sizeof(Child)))
+				element.knownOffset = offset;
+			return made;
+		}
+
+		// Types may leave their first bytes uninitialised, so it's necessary to locate the value in another way or initialise them all
+		template <typename T>
+		T makeTypeDuringSetup(MappingElement& element) const {
+			if constexpr(std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T>) {
+				alignas(T) const std::array<char, sizeof(T)> zeroes = {};
+				return *reinterpret_cast<const T*>(&zeroes);
+			} else if constexpr(std::is_move_constructible_v<T>) {
+				return makeLocatedType<T>(element);
+			} else {
+				return makeType<T>(std::make_index_sequence<sizeof...(Args)>());
+			}
+		}
 	public:
 #if _MSC_VER && !__INTEL_COMPILER
 		template <class T>
@@ -372,7 +399,7 @@ class Serialisable : public IDescribableSerialisable {
 						 &describeMember<T, Name>, &addMemberType<T>, Name, Flags>::done;
 				added = !added && Serialisable::_setup; // Avoid unused variable warning and use the _setup
 #endif
-				info.index++;
+				return makeTypeDuringSetup<T>(info.elements[info.index++]);
 			}
 			return makeType<T>(std::make_index_sequence<sizeof...(Args)>());
 		}
-- 
2.43.0


From c9f03f2d5f448af1548e7199930c0403b8838b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 69/90] fix: check and send arguments of all types in the
 JavaScript client

---
 public_html/bomba.js | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index b90439a..72b1d11 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -108,18 +108,22 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
-function makeCheckIfExpectedType(name, described) {
+function makeCheckIfExpectedType(name, described, depth = 0) {
 	if (described === "number") {
 		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
 	} else if (described === "string") {
 		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
 	} else if (described === "boolean") {
 		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
-	} else if (typeof type === "object" && Array.isArray(type)) {
-		let result = `if (typeof ${name} != "object" || Array.isArray(${name})) { throw "${name} must be an array" } `;
-		result += `for (let i = 0; i < ${name}.length; i++) { ${ makeCheckIfExpectedType(name + "[i]", described[0]) } }`;
+	} else if (Array.isArray(described)) {
+		const index = `i${depth}`;
+		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
+		return result;
+	} else if (described === "object") {
+		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
 	} else {
-		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
+		return `if (${name} === undefined || ${name} === null || ${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
 }
 
@@ -181,7 +185,7 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 	
 	let code = "/**\n";
 	if (docLines.length > 0) {
-		for (const line of returnInfo.doc_lines) {
+		for (const line of docLines) {
 			code += ` * ${line}\n`;
 		}
 		code += " *\n";
@@ -208,9 +212,10 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 			code += `\tif (arg_${argNames[i]} != undefined) `;
 		}
 		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]} === "object" && typeof arg_${argNames[i]}.constructor.name === "string")\n`;
+		code += `\t\tif (typeof arg_${argNames[i]}.toJson === "function")\n`;
 		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
-		code += `\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		code += "\t\telse\n";
+		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
@@ -269,7 +274,7 @@ function generateApiCallGui(callee, name, argNames, argDefinitions, types) {
 }
 
 export async function loadApi(path) {
-	const description = await getJson("api_description.json");
+	const description = await getJson("api_description.json", path);
 	const api = {};
 	const types = {};
 	
-- 
2.43.0


From 5a6fad4cc988ca16d0cc9fb0516fc5c00810f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 70/90] fix: fail instead of dying when sending a request
 through a closed connection

---
 bomba_sync_client.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index bbdeafb..cc29842 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -92,8 +92,13 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
+			std::error_code error; // The overload that throws would ignore the flags
 			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())),
-					Net::socket_base::message_flags(MSG_NOSIGNAL));
+					Net::socket_base::message_flags(MSG_NOSIGNAL), error);
+			if (error) {
+				remoteError(error.message().c_str());
+				break;
+			}
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From 68c70ead2a2f32706335a0ecd7374ccfdd710aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 71/90] fix: do not serve files under names continued after a
 null character

---
 bomba_download_server.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index a060a59..0d50026 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -126,9 +126,10 @@ public:
 			editedPath = "/index.html";
 		} else {
 			if (editedPath[0] != '/' || std::filesystem::path(editedPath.substr(1)).is_absolute()
-					|| editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+					|| editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos
+					|| editedPath.find('\0') != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
-				return false; // Exclude paths out of the folder, hidden files or empty paths
+				return false; // Exclude paths out of the folder, hidden files, empty paths or ones the system would understand only partially
 			}
 		}
 
-- 
2.43.0


From e43c6e40d9872d2c0d7b4dd23ca946dd1b9f6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 72/90] fix: do not give classes differing by a leading
 underscore the same type name

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index e6c04a6..5ae94c5 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -501,7 +501,7 @@ public:
 
 	std::string_view getTypeName() const override {
 		const char* name = typeid(Child).name(); // Resolved at compile time, should not need RTTI
-		while (*name != '\0' && !(*name >= 'a' && *name <= 'z') && !(*name >= 'A' && *name <= 'Z'))
+		while (*name >= '0' && *name <= '9') // Length of the name, an underscore behind it is a part of the name
 			name++;
 		if (*name == '\0')
 			name = "object";
-- 
2.43.0


From 151213d16b1bba2fab37c94827c9fb91f4a77f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 73/90] fix: do not store lambdas requiring a larger alignment
 inside RpcLambdaHolder

---
 bomba_dynamic_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 062679a..7402248 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,6 +43,7 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
+				alignof(RpcLambda<std::decay_t<LambdaType>>) <= alignof(decltype(_content)) &&
 				std::is_trivially_destructible_v<std::decay_t<LambdaType>> &&
 				std::is_trivially_copyable_v<std::decay_t<LambdaType>>)
 		, _owning(true)
-- 
2.43.0


From 88ef441a1a1267e24100300eee8dc9ca0e293e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 74/90] fix: check types of members of nested objects in the
 JavaScript client

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 72b1d11..cf87c9c 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -123,7 +123,7 @@ function makeCheckIfExpectedType(name, described, depth = 0) {
 	} else if (described === "object") {
 		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
 	} else {
-		return `if (${name} === undefined || ${name} === null || ${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
+		return `if (${name} === undefined || ${name} === null || ${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" } ${name}.toJson()`;
 	}
 }
 
-- 
2.43.0


From f589d0e63929685bdc24bc3e1c29f6499c90c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 75/90] fix: accept names that are not identifiers in the
 JavaScript client

---
 public_html/bomba.js | 75 +++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index cf87c9c..352abaf 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -108,22 +108,39 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
+// Names of members and parameters can be any strings, the generated code has to work with them
+function makeVariable(name, index) {
+	return /^[\w$]+$/.test(name) ? `arg_${name}` : `arg${index}`;
+}
+
+function makeMember(object, name) {
+	return /^[A-Za-z_$][\w$]*$/.test(name) ? `${object}.${name}` : `${object}[${JSON.stringify(name)}]`;
+}
+
+function inComment(text) {
+	return text.replaceAll("*/", "* /");
+}
+
+function makeThrow(name, problem) {
+	return `throw ${JSON.stringify(`${name} ${problem}`)}`;
+}
+
 function makeCheckIfExpectedType(name, described, depth = 0) {
 	if (described === "number") {
-		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
+		return `if (typeof ${name} != "number") { ${ makeThrow(name, "must be a number") } }`;
 	} else if (described === "string") {
-		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
+		return `if (typeof ${name} != "string") { ${ makeThrow(name, "must be a string") } }`;
 	} else if (described === "boolean") {
-		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
+		return `if (typeof ${name} != "boolean") { ${ makeThrow(name, "must be a boolean") } }`;
 	} else if (Array.isArray(described)) {
 		const index = `i${depth}`;
-		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		let result = `if (!Array.isArray(${name})) { ${ makeThrow(name, "must be an array") } } `;
 		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
 		return result;
 	} else if (described === "object") {
-		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
+		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { ${ makeThrow(name, "must be an object") } }`;
 	} else {
-		return `if (${name} === undefined || ${name} === null || ${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" } ${name}.toJson()`;
+		return `if (${name} === undefined || ${name} === null || ${name}.constructor.name != "${described}") { ${ makeThrow(name, `must be a an object of type ${described}`) } } ${name}.toJson()`;
 	}
 }
 
@@ -131,14 +148,14 @@ function generateApiClass(name, definition, types) {
 	let code = `(class ${name} {\n/**\n`;
 	code += ` * Creates a new instance of class ${name}\n`;
 	for (const [name, type] of Object.entries(definition)) {
-		code += ` * @param {${extractType(type)}} ${name}\n`;
+		code += ` * @param {${extractType(type)}} ${inComment(name)}\n`;
 	}
 	code += " */\n\tconstructor("
 	Object.entries(definition).forEach( ([name, type], index) => {
 		if (index != 0) {
 			code += ", ";
 		}
-		code += `arg_${name} = `;
+		code += `${makeVariable(name, index)} = `;
 		if (type === "number") code += "0";
 		else if (type === "string") code += "''";
 		else if (type === "boolean") code += "false";
@@ -147,15 +164,15 @@ function generateApiClass(name, definition, types) {
 		index++;
 	});
 	code += ") {\n";
-	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tthis.${name} = arg_${name}\n`;
-	}
+	Object.entries(definition).forEach( ([name, type], index) => {
+		code += `\t\t${makeMember("this", name)} = ${makeVariable(name, index)}\n`;
+	});
 	code += "\t}\n\ttoJson() {\n";
 	code += "\t\tlet result = {}\n";
 	
 	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\t${ makeCheckIfExpectedType(`this.${name}`, type) }\n`;
-		code += `\t\tresult.${name} = this.${name}\n`;
+		code += `\t\t${ makeCheckIfExpectedType(makeMember("this", name), type) }\n`;
+		code += `\t\t${makeMember("result", name)} = ${makeMember("this", name)}\n`;
 	}
 	code += "\t\treturn result;\n";
 	code += "\t}\n";
@@ -164,11 +181,12 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tlet container = document.createElement('div')\n";
 	code += "\t\tcontainer.className = 'bombaObjectBox'\n";
 	code += "\t\tlet valueGetters = []\n";
-	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", "${type}", undefined, types)\n`;
-		code += `\t\tcontainer.appendChild(elem_${name})\n`;
-		code += `\t\tvalueGetters.push(() => this.${name} = getter_${name}())\n`;
-	}
+	Object.entries(definition).forEach( ([name, type], index) => {
+		const variable = makeVariable(name, index);
+		code += `\t\tlet [elem_${variable}, getter_${variable}] = makeGuiForArg(${ JSON.stringify(humanise(name)) }, "${type}", undefined, types)\n`;
+		code += `\t\tcontainer.appendChild(elem_${variable})\n`;
+		code += `\t\tvalueGetters.push(() => ${makeMember("this", name)} = getter_${variable}())\n`;
+	});
 	code += "\t\treturn [container, () => { for (const getter of valueGetters) getter(); return this; } ]\n";
 	
 	code += "\t}\n})";
@@ -186,36 +204,37 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 	let code = "/**\n";
 	if (docLines.length > 0) {
 		for (const line of docLines) {
-			code += ` * ${line}\n`;
+			code += ` * ${inComment(line)}\n`;
 		}
 		code += " *\n";
 	}
 	for (let i = 0; i < argNames.length; i++) {
 		const type = extractType(argDefinitions[i].type);
-		code += ` * @param {${type}} arg_${ argNames[i] } ${ argDefinitions[i].doc_lines.join(" ") } \n`;
+		code += ` * @param {${type}} ${ makeVariable(argNames[i], i) } ${ inComment(argDefinitions[i].doc_lines.join(" ")) } \n`;
 	}
-	code += ` * @return {${extractType(returnInfo.type)}} ${ returnInfo.doc_lines.join(" ") } \n`;
+	code += ` * @return {${extractType(returnInfo.type)}} ${ inComment(returnInfo.doc_lines.join(" ")) } \n`;
 	
 	code += " */\nasync (";
 	for (let i = 0; i < argNames.length; i++) {
 		if (i !== 0) {
 			code += ", ";
 		}
-		code += `arg_${argNames[i]}`;
+		code += makeVariable(argNames[i], i);
 	}
 	code += ") => {\n";
 	
-	code += `\tconst request = { jsonrpc : '2.0', id : generateApiCall.messageIndex, method : '${name}', params : {} }\n`;
+	code += `\tconst request = { jsonrpc : '2.0', id : generateApiCall.messageIndex, method : ${JSON.stringify(name)}, params : {} }\n`;
 	code += "\tgenerateApiCall.messageIndex++\n";
 	for (let i = 0; i < argNames.length; i++) {
+		const variable = makeVariable(argNames[i], i);
 		if (argDefinitions[i].optional) {
-			code += `\tif (arg_${argNames[i]} != undefined) `;
+			code += `\tif (${variable} != undefined) `;
 		}
-		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]}.toJson === "function")\n`;
-		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
+		code += `\t{\n\t\t${ makeCheckIfExpectedType(variable, argDefinitions[i].type) }\n`;
+		code += `\t\tif (typeof ${variable}.toJson === "function")\n`;
+		code += `\t\t\t${makeMember("request.params", argNames[i])} = ${variable}.toJson()\n`;
 		code += "\t\telse\n";
-		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		code += `\t\t\t${makeMember("request.params", argNames[i])} = ${variable}\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
-- 
2.43.0


From 5261fe4498b5000b81bc347c0245072cbfaf6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 76/90] fix: offer procedures of objects named as members of
 all objects in the JavaScript client

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 352abaf..5eb562b 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -323,7 +323,7 @@ export async function loadApi(path) {
 			if (index === nameParts.length - 1) {
 				subApi[part] = made;
 			} else {
-				if (subApi[part] === undefined) {
+				if (!Object.hasOwn(subApi, part)) {
 					subApi[part] = {};
 				}
 				subApi = subApi[part];
-- 
2.43.0


From 2d9e360fbd4caf4d46edb52740b092be8e882581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 77/90] fix: refuse to call procedures the binary protocol
 cannot identify

---
 bomba_binary_protocol.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index c3088da..3bfd121 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -383,7 +383,10 @@ public:
 			if (depth >= MaxDepth) [[unlikely]] throw std::logic_error("Max depth exceeded, set a greater depth as template argument");
 			if (depth > 0)
 				memmove(&path[1], &path[0], depth);
-			path[0] = parent->childName(it).second;
+			int index = parent->childName(it).second;
+			if (index < 0 || index > std::numeric_limits<uint8_t>::max()) [[unlikely]]
+				throw std::logic_error("Only the first 256 members of an object can be called through the binary protocol");
+			path[0] = index;
 		}
 		for (int i = 0; i < depth; i++)
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
-- 
2.43.0


From 4008073d6f376d36a3f104c10b51ae983e900acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 78/90] fix: appending what is serialised to an existing output
 compiles

---
 bomba_core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 19c86d9..ba433fd 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -680,7 +680,6 @@ struct ISerialisable {
 	void serialise(FromType& output) {
 		typename F::Output format(output);
 		serialiseInternal(format);
-		return output;
 	}
 	
 	template <DataFormat F, typename FromType>
-- 
2.43.0


From 7ab5b6df21a8c034ccb19790418c1d0110c13bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 79/90] fix: JsonRpcClient can be used with another buffer type

---
 bomba_json_rpc.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 33fde46..a4c912a 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -374,12 +374,13 @@ struct HttpOwner {
 
 
 template <BetterAssembledString StringType = std::string, std::derived_from<GeneralisedBuffer> ExpandingBufferType = ExpandingBuffer<>>
-class JsonRpcClient : private Detail::HttpOwner<StringType, ExpandingBufferType>, public JsonRpcClientProtocol<HttpClient<StringType>> {
+class JsonRpcClient : private Detail::HttpOwner<StringType, ExpandingBufferType>,
+		public JsonRpcClientProtocol<HttpClient<StringType, ExpandingBufferType>, StringType> {
 	using HttpOwner = Detail::HttpOwner<StringType, ExpandingBufferType>;
 public:
 	JsonRpcClient(IRemoteCallable& callable, ITcpClient& client, std::string_view virtualHost)
 			: Detail::HttpOwner<StringType, ExpandingBufferType>{{client, virtualHost}},
-			  JsonRpcClientProtocol<HttpClient<StringType>>(callable, HttpOwner::http) {}
+			  JsonRpcClientProtocol<HttpClient<StringType, ExpandingBufferType>, StringType>(callable, HttpOwner::http) {}
 
 	bool hasResponse(RequestToken token) override {
 		return static_cast<IRpcResponder&>(HttpOwner::http).hasResponse(token);
-- 
2.43.0


From 9c04467a1395e8a55df606926d6279d4c38b6524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:09 +0000
Subject: [PATCH 80/90] fix: reflection works on classes with overaligned
 members

---
 bomba_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 5ae94c5..5556637 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -244,7 +244,8 @@ class Serialisable : public IDescribableSerialisable {
 
 		// Create the child class in specially prepared garbage
 		constexpr int allocatedSize = sizeof(Child) / sizeof(void*) + 1;
-		std::array<std::array<void*, allocatedSize>, 2> allocated; // Allocate as void* to have proper padding
+		struct alignas(Child) Allocated : std::array<void*, allocatedSize> {}; // Allocate as void* to have proper padding
+		std::array<Allocated, 2> allocated;
 		std::array<int8_t*, 2> childBytes;
 		struct ChildDestroyer { // We must assure proper destruction of Child, even if an exception is thrown
 			Child* child = nullptr;
-- 
2.43.0


From aca0d67a8a93fc2fc72ba0e76dbd83362e89af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 81/90] fix: objects and procedures can be used while
 initialising static variables

---
 bomba_object.hpp     |  9 +++++++++
 bomba_rpc_object.hpp | 20 +++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 5556637..ae985b9 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -305,6 +305,13 @@ class Serialisable : public IDescribableSerialisable {
 	}
 	static inline auto _setup = setup();
 
+	static void assureSetup() { // Static variables using the class can be initialised earlier than the above one
+#ifndef NO_DEFECT_REPORT_2118
+		if (!_setup) [[unlikely]]
+			_setup = setup();
+#endif
+	}
+
 	template <StringLiteral Name, SerialisationFlags::Flags Flags, typename... Args>
 	class InitialiserInitialiser {
 		std::tuple<Args...> _args;
@@ -429,6 +436,7 @@ protected:
 
 	void serialiseInternal(IStructuredOutput& format,
 			SerialisationFlags::Flags flags) const override {
+		assureSetup();
 #ifdef NO_DEFECT_REPORT_2118
 		format.startWritingObject(SerialisationFlags::Flags(flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN), _setup.size());
 		for (int i = 0; i < std::ssize(setup); i++) {
@@ -443,6 +451,7 @@ protected:
 	}
 	bool deserialiseInternal(IStructuredInput& format,
 			SerialisationFlags::Flags flags) override {
+		assureSetup();
 		format.readObject(SerialisationFlags::Flags(flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN),
 					[&] (std::optional<std::string_view> name, int index) {
 #ifdef NO_DEFECT_REPORT_2118
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index acc71ed..fd78017 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -434,7 +434,13 @@ struct RpcLambdaInformationHolder {
 			Detail::RpcSetupData::instance = nullptr;
 			return result;
 		}
-		inline static Detail::RpcArgumentInfo* argumentInfo = makeArgumentInfo();
+		inline static Detail::RpcArgumentInfo* madeArgumentInfo = makeArgumentInfo();
+
+		static Detail::RpcArgumentInfo& argumentInfo(int index) {
+			if (!madeArgumentInfo) [[unlikely]] // Called while initialising static variables
+				madeArgumentInfo = makeArgumentInfo();
+			return madeArgumentInfo[index];
+		}
 
 		template <int ArgIndex = 0>
 		static void setArg(std::optional<std::string_view> name, ArgsTuple& args,
@@ -444,10 +450,10 @@ struct RpcLambdaInformationHolder {
 				if (name.has_value()) // Otherwise there is nothing to skip, arguments are identified by their order
 					in.skipObjectElement(flags);
 			} else {
-				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
+				if ((name.has_value() && *name == argumentInfo(Index).name) || (!name.has_value() && Index == index))
 					TypedSerialiser<std::decay_t<decltype(std::get<ArgIndex>(args))>>::deserialiseMember(
 							in, std::get<ArgIndex>(args), SerialisationFlags::Flags(
-										flags | argumentInfo[Index].flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN));
+										flags | argumentInfo(Index).flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN));
 				else
 					setArg<ArgIndex + 1>(name, args, in, index, SerialisationFlags::Flags(flags));
 			}
@@ -496,9 +502,9 @@ struct RpcLambdaInformationHolder {
 		template <typename First, typename... Others>
 		void remoteCallHelper(IStructuredOutput& out, First first, Others... args) const {
 			constexpr int index = argumentInfoSize - sizeof...(Others) - 1;
-			SerialisationFlags::Flags flags = SerialisationFlags::Flags(Flags | argumentInfo[index].flags);
+			SerialisationFlags::Flags flags = SerialisationFlags::Flags(Flags | argumentInfo(index).flags);
 			auto write = [&] () {
-				out.introduceObjectMember(SerialisationFlags::Flags(Flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN), argumentInfo[index].name, index);
+				out.introduceObjectMember(SerialisationFlags::Flags(Flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN), argumentInfo(index).name, index);
 				TypedSerialiser<First>::serialiseMember(out, first, flags);
 			};
 			if constexpr(std::is_same_v<bool, First>) {
@@ -561,7 +567,7 @@ struct RpcLambdaInformationHolder {
 					[] (std::string_view name, IRemoteCallableDescriptionFiller& filler) {
 			filler.addMethod(name, "", [] (IPropertyDescriptionFiller& paramFiller) {
 				for (int i = 0; i < argumentInfoSize; i++) {
-					argumentInfo[i].argumentAdder(paramFiller, argumentInfo[i].name);
+					argumentInfo(i).argumentAdder(paramFiller, argumentInfo(i).name);
 				}
 			}, [] (IPropertyDescriptionFiller& returnFiller) {
 				if constexpr(!std::is_void_v<Returned>) {
@@ -572,7 +578,7 @@ struct RpcLambdaInformationHolder {
 			});
 		}, [] (ISerialisableDescriptionFiller& filler) {
 			for (int i = 0; i < argumentInfoSize; i++) {
-				argumentInfo[i].subtypesAdder(filler);
+				argumentInfo(i).subtypesAdder(filler);
 			}
 			if constexpr(!std::is_void_v<Returned>) {
 				TypedSerialiser<Returned>::listTypes(filler);
-- 
2.43.0


From 3132dfff06bde39fa81eeba9165e0307daa7d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 82/90] fix: no data race when multiple threads create the
 first objects of a class

---
 bomba_rpc_object.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index fd78017..d4efe2c 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 
+#include <atomic>
 #include <csetjmp>
 
 #if (_MSC_VER && !__INTEL_COMPILER) || __clang__
@@ -90,7 +91,7 @@ struct IResponseReader {
 
 	template <typename Parent, int Index>
 	struct SubclassAccess {
-		friend int& childOffset(SubclassAccess<Parent, Index>);
+		friend std::atomic<int>& childOffset(SubclassAccess<Parent, Index>);
 		friend constexpr auto childName(SubclassAccess<Parent, Index>);
 		friend constexpr SerialisationFlags::Flags flagsOf(SubclassAccess<Parent, Index>);
 		friend constexpr ChildGettingFunction childGetter(SubclassAccess<Parent, Index>);
@@ -106,8 +107,8 @@ struct IResponseReader {
 			ChildGettingFunction ChildGetter, ChildNameGettingFunction ChildNameGetter,
 			SubtypesAddingFunction SubtypesAdder, ChildDescribingFunction ChildDescriptor>
 	struct SubclassSaver {
-		friend int& childOffset(SubclassAccess<Parent, Index>) {
-			static int saved = -1;
+		friend std::atomic<int>& childOffset(SubclassAccess<Parent, Index>) {
+			static std::atomic<int> saved = -1; // Objects of the class may be first created by multiple threads at once
 			return saved;
 		}
 		friend constexpr auto childName(SubclassAccess<Parent, Index>) {
@@ -152,7 +153,7 @@ struct IResponseReader {
 	};
 
 	template <typename Parent, int Index>
-	constexpr int& getChildOffset() {
+	std::atomic<int>& getChildOffset() {
 		return childOffset(SubclassAccess<Parent, Index>());
 	}
 
@@ -846,7 +847,7 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 #else
 		constexpr int parentIndex = Detail::AddChildRpc<ParentObject, 0, Name, Flags, childGetter, childNameGetter<Name>,
 				ParentClass::info.subtypesAdder, ParentClass::template childAdder<Name> >::index;
-		int& offset = Detail::getChildOffset<ParentObject, parentIndex>();
+		std::atomic<int>& offset = Detail::getChildOffset<ParentObject, parentIndex>();
 		if (offset == -1) [[unlikely]] {
 			offset = reinterpret_cast<intptr_t>(this) - reinterpret_cast<intptr_t>(ParentObject::setupInstance);
 		}
-- 
2.43.0


From 948b9b61e172f114a2e2930e798363c4f1358f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 83/90] fix: moving a dynamic object keeps responders set to it
 and in it

---
 bomba_core.hpp           | 6 ++++++
 bomba_dynamic_object.hpp | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index ba433fd..f784dae 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -783,10 +783,16 @@ protected:
 		reparented->_parent = this;
 		reparented->_responder = nullptr; // Found through the parent
 	}
+	void replaceParentOf(IRemoteCallable* reparented) { // If the parent was moved or copied
+		reparented->_parent = this;
+	}
 	void unsetParent(IRemoteCallable* reparented) {
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
 	}
+	IRpcResponder* ownResponder() const { // Returns nullptr if it's not set for this one
+		return _responder;
+	}
 	IRpcResponder* findResponder() const { // Returns nullptr if it's not a client
 		if (!_responder && _parent)
 			return _parent->findResponder(); // Not stored, the parent's responder may change
diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 7402248..bed96a5 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -200,9 +200,10 @@ public:
 
 	DynamicRpcObject() = default;
 
-	DynamicRpcObject(DynamicRpcObject&& from) : _contents(std::move(from._contents)) {
+	DynamicRpcObject(DynamicRpcObject&& from)
+			: IRemoteCallable(nullptr, from.ownResponder()), _contents(std::move(from._contents)) {
 		for (auto& [name, functor] : _contents) {
-			setSelfAsParent(&*functor);
+			replaceParentOf(&*functor);
 		}
 	}
 };
-- 
2.43.0


From f287df294eca388e0d0f9efe12e82de81dbc07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 84/90] fix: procedures in a copied object belong to the copy

---
 bomba_core.hpp       |  5 +++++
 bomba_rpc_object.hpp | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f784dae..b379f08 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -808,6 +808,11 @@ protected:
 public:
 	IRemoteCallable(IRemoteCallable* parent = nullptr, IRpcResponder* responder = nullptr)
 			: _parent(parent), _responder(responder) {}
+	IRemoteCallable(const IRemoteCallable&) = default;
+	IRemoteCallable& operator=(const IRemoteCallable& other) {
+		_responder = other._responder; // The parent is not changed, it remains a part of the same object
+		return *this;
+	}
 
 	IRemoteCallable* parent() const {
 		return _parent;
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index d4efe2c..b44089f 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -724,16 +724,35 @@ struct RpcStatelessLambda : public Detail::RpcLambdaRedirector<Flags, decltype(&
 
 namespace Detail {
 	class RpcObjectCommon : public IRemoteCallable {
+		inline static thread_local RpcObjectCommon* copyMade = nullptr;
+		inline static thread_local const RpcObjectCommon* copyOf = nullptr;
 	protected:
 
 		RpcObjectCommon(RpcObjectCommon*& setup) {
 			setup = this;
 		}
+		RpcObjectCommon(const RpcObjectCommon& other) : IRemoteCallable(other) {
+			copyMade = this;
+			copyOf = &other;
+		}
+		RpcObjectCommon& operator=(const RpcObjectCommon&) = default;
+		~RpcObjectCommon() {
+			if (copyMade == this)
+				copyMade = nullptr;
+		}
 	public:
 		template <auto Func, SerialisationFlags::Flags Flags>
 		void addChild(RpcStatelessLambda<Func, Flags>* added) {
 			setSelfAsParent(added);
 		}
+
+		// Members of a copy need to be told that they are now parts of the copy
+		template <auto Func, SerialisationFlags::Flags Flags>
+		static void copiedChild(const RpcStatelessLambda<Func, Flags>* original, RpcStatelessLambda<Func, Flags>* copy) {
+			if (copyMade && original->parent() == copyOf && reinterpret_cast<intptr_t>(copy) - reinterpret_cast<intptr_t>(copyMade)
+					== reinterpret_cast<intptr_t>(original) - reinterpret_cast<intptr_t>(copyOf))
+				copyMade->replaceParentOf(copy);
+		}
 	};
 } // namespace Detail
 
@@ -855,6 +874,10 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 		auto parent = reinterpret_cast<Detail::RpcObjectCommon*>(reinterpret_cast<intptr_t>(this) - offset);
 		parent->addChild(this);
 	}
+	RpcMember(const RpcMember& other) : RpcStatelessLambda<Func, Flags>(other) {
+		Detail::RpcObjectCommon::copiedChild(&other, this);
+	}
+	RpcMember& operator=(const RpcMember&) = default;
 private:
 
 	constexpr static Detail::ChildGettingFunction childGetter = [] (const IRemoteCallable* parent, int offset) {
-- 
2.43.0


From 85257978338013f9ac2f431c4eb3587d15b7529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 85/90] fix: HTTPS client gets responses that come in more
 pieces, more at once or were polled before

---
 tls/tls_sync_client.hpp | 46 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 5a40884..339cffe 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -33,22 +33,43 @@ class TlsSyncClient : public ITcpClient {
 			connect();
 	}
 
+	// If waiting, the response is read and forgotten, otherwise it's kept to be read later
 	template <bool doWait, typename Reader>
 	void searchRequests(RequestToken tokenSought, Reader&& reader) {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
-			if (reaction == ServerReaction::READ_ON)
-				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			if constexpr(doWait) {
+				std::vector<char> response = std::move(found->second);
+				_responses.erase(found);
+				reader(response, true);
+			} else {
+				reader(found->second, true);
+			}
+			return;
 		}
 
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			// More responses could have been received at once
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT) {
+					boost::system::error_code ignored;
+					_socket.next_layer().shutdown(SocketType::next_layer_type::shutdown_both, ignored); // Nothing in the stream makes sense any more
+					_leftovers.clear();
+					return;
+				}
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait)
+					_responses.insert_or_assign(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position));
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.next_layer().available() == 0)
@@ -60,17 +81,6 @@ class TlsSyncClient : public ITcpClient {
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
-- 
2.43.0


From e25424e7f0970193f68ad55d78146800a1a3ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 86/90] fix: asking the HTTPS client if a response is available
 does not wait and is truthful

---
 tls/tls_sync_client.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 339cffe..c6bd33c 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -70,12 +70,15 @@ class TlsSyncClient : public ITcpClient {
 					return;
 			}
 
-			std::error_code error;
+			// Data may be available that make no whole record or none of it is the response, so it can't be decided by checking if any are available
+			boost::system::error_code error;
+			_socket.next_layer().non_blocking(!doWait);
+			auto received = _socket.read_some(boost::asio::buffer(responseBuffer), error);
+			_socket.next_layer().non_blocking(false);
 			if constexpr(!doWait) {
-				if (_socket.next_layer().available() == 0)
-					break;
+				if (error == boost::asio::error::would_block || error == boost::asio::error::try_again)
+					return;
 			}
-			auto received = _socket.read_some(boost::asio::buffer(responseBuffer));
 			if (error) {
 				remoteError(error.message().c_str());
 				break;
-- 
2.43.0


From 162af13e298265f2d3bcf133413b8b5f93398e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:36 +0000
Subject: [PATCH 87/90] fix: HTTP and HTTPS client can be used in one program

---
 tls/tls_sync_client.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index c6bd33c..263ffe2 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -1,5 +1,5 @@
-#ifndef BOMBA_SYNC_CLIENT
-#define BOMBA_SYNC_CLIENT
+#ifndef BOMBA_TLS_SYNC_CLIENT
+#define BOMBA_TLS_SYNC_CLIENT
 
 #ifndef BOMBA_CORE // Needed to run in godbolt
 #include "../bomba_core.hpp"
@@ -115,4 +115,4 @@ public:
 };
 
 } // namespace Bomba
-#endif // BOMBA_SYNC_CLIENT
+#endif // BOMBA_TLS_SYNC_CLIENT
-- 
2.43.0


From 27a793a45789bf6764886736b07b84309ce02b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 88/90] fix: GUI of the JavaScript client can be made for APIs
 with nested objects

---
 public_html/bomba.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 5eb562b..ec9d059 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -335,7 +335,7 @@ export async function loadApi(path) {
 		let elementMakers = [];
 		for (const [subName, value] of Object.entries(api)) {
 			if (typeof value != "function") {
-				value.gui = makeApiGuiGenerator(value, subName);
+				makeApiGuiGenerator(value, subName);
 			}
 			elementMakers.push(value.gui);
 		}
@@ -344,7 +344,9 @@ export async function loadApi(path) {
 			if (name) {
 				container = document.createElement("details");
 				container.open = true;
-				container.appendChild(document.createElement(name));
+				const summary = document.createElement("summary");
+				summary.textContent = humanise(name);
+				container.appendChild(summary);
 			} else {
 				container = document.createElement("div");
 			}
-- 
2.43.0


From 87224bd199b728e3d41d406a395b8e11b6d2d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 89/90] fix: GUI of the JavaScript client can be made for
 classes with arrays and maps

---
 public_html/bomba.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index ec9d059..2c839d4 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -94,6 +94,9 @@ function makeGuiForArg(name, type, identifier, types) {
 	} else if (Array.isArray(typeObtained)) {
 		const space = document.createElement("div");
 		return [space, () => { return []; }];
+	} else if (typeObtained === "object") {
+		const space = document.createElement("div");
+		return [space, () => { return {}; }];
 	} else {
 		const space = document.createElement("fieldset");
 		space.className = "bombaFrame";
@@ -183,7 +186,7 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tlet valueGetters = []\n";
 	Object.entries(definition).forEach( ([name, type], index) => {
 		const variable = makeVariable(name, index);
-		code += `\t\tlet [elem_${variable}, getter_${variable}] = makeGuiForArg(${ JSON.stringify(humanise(name)) }, "${type}", undefined, types)\n`;
+		code += `\t\tlet [elem_${variable}, getter_${variable}] = makeGuiForArg(${ JSON.stringify(humanise(name)) }, ${ JSON.stringify(type) }, undefined, types)\n`;
 		code += `\t\tcontainer.appendChild(elem_${variable})\n`;
 		code += `\t\tvalueGetters.push(() => ${makeMember("this", name)} = getter_${variable}())\n`;
 	});
-- 
2.43.0


From 6e997ffb63b6256274c3e37b510e269937124893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 90/90] fix: GUI of the JavaScript client shows the text "null"
 if it is the result

---
 public_html/bomba.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 2c839d4..f606f7b 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -285,9 +285,8 @@ function generateApiCallGui(callee, name, argNames, argDefinitions, types) {
 			args.push(getter());
 		}
 		const result = await callee(...args);
-		const resultString = String(result);
-		if (resultString !== "null") // Don't show the result if it's not worth showing
-			resultSpace.textContent = resultString;
+		if (result !== null && result !== undefined) // Don't show the result if it's not worth showing
+			resultSpace.textContent = String(result);
 	};
 	buttonSpace.appendChild(button);
 	questionnaire.appendChild(buttonSpace);
-- 
2.43.0

