From b75f0aa5b10bd446cf5fcd6114cbd05d8664d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 01/16] fix: SerializeVarint reported success when a byte
 before the last was refused

---
 src/WireFormatter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..399ed3c 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -532,7 +532,8 @@ namespace EmbeddedProto
           memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
           value >>= VARINT_SHIFT_N_BITS;
         }
-        memory_free = buffer.push(static_cast<uint8_t>(value));
+        // Never let the last byte being accepted hide that a byte before it was refused.
+        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
 
         const Error return_value = memory_free ? Error::NO_ERRORS : Error::BUFFER_FULL;
         return return_value;
-- 
2.43.0


From 1c31bb529add1a250d3e05cd7098ac4ca4c126df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:31 +0000
Subject: [PATCH 02/16] fix: WriteBufferFixedSize refused a block that fits
 exactly and accepted one whose length overflows

---
 src/WriteBufferFixedSize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..8bb2a07 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -85,7 +85,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = get_available_size() >= length;
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From 36b07026c7db8c48b6db4e614b81c86d268969d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:52 +0000
Subject: [PATCH 03/16] fix: ReadBufferFixedSize let a large skip wrap around
 and counted read bytes as stored

---
 src/ReadBufferFixedSize.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..c87eea0 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -54,7 +54,8 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::get_size()
       uint32_t get_size() const override
       {
-        return write_index_;
+        // Bytes which have been read are no longer in the buffer.
+        return (write_index_ > read_index_) ? (write_index_ - read_index_) : 0;
       }
 
       //! \see ::EmbeddedProto::ReadBufferInterface::get_max_size()
@@ -88,11 +89,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
+        const bool return_value = get_size() >= N;
         if(return_value)
         {
-          read_index_ = new_read_index;
+          read_index_ += N;
         }
         return return_value;
       }
-- 
2.43.0


From fc547ea782cc5753e3d6f7303c5f166aceaca550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:11 +0000
Subject: [PATCH 04/16] fix: ReadBufferSection::advance(n) reported success for
 more bytes than the section holds

---
 src/ReadBufferSection.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..bdc57af 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -77,11 +77,12 @@ namespace EmbeddedProto
 
   bool ReadBufferSection::advance(const uint32_t n_bytes)
   {
-    bool result = 0 < size_;
-    if(result) 
+    const uint32_t n = std::min(n_bytes, size_);
+    // The section is limited, asking for more than what is left is a failure.
+    bool result = n_bytes <= size_;
+    if(0 < n)
     {
-      uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && result;
       size_ -= n;
     }
     return result;
-- 
2.43.0


From dc3820f6787067e1869d4ec55c59cb35b5b68bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 05/16] fix: skipping an unknown field longer than the buffer
 left the parser inside its payload

---
 src/MessageInterface.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..4b96a12 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -146,10 +146,18 @@ namespace EmbeddedProto
   {
     // First read the number of bytes 
     uint32_t n_bytes = 0;
-    const Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
+    Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
     if(Error::NO_ERRORS == return_value)
     {
-      buffer.advance(n_bytes);
+      if(n_bytes <= buffer.get_size())
+      {
+        buffer.advance(n_bytes);
+      }
+      else
+      {
+        // The field claims to have more bytes than there are in the buffer.
+        return_value = Error::END_OF_BUFFER;
+      }
     }
     return return_value;
   }
-- 
2.43.0


From 3d43d585bc86108a147b078ce78069432a84737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 06/16] fix: group markers of unknown fields were ignored and
 their content parsed as fields

---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 4b96a12..c0a732c 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -114,7 +114,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // Groups are deprecated and not supported, we do not know where the next tag is.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From ff28c2b9fd24503caf242afb015ca2dfa18bbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:20 +0000
Subject: [PATCH 07/16] fix: a nested message cut off by the end of the buffer
 was accepted as complete

---
 src/MessageInterface.cpp | 4 +++-
 src/RepeatedField.h      | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index c0a732c..d914bdd 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -83,7 +83,9 @@ namespace EmbeddedProto
       ::EmbeddedProto::ReadBufferSection bufferSection(buffer, size);
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
-        return_value = deserialize(bufferSection);
+        // The nested message is only complete when all its bytes are in the buffer.
+        return_value = (size <= bufferSection.get_max_size()) ? deserialize(bufferSection) 
+                                                              : Error::END_OF_BUFFER;
       }
     }
     return return_value;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..a2973e0 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -379,7 +379,10 @@ namespace EmbeddedProto
             if(Error::NO_ERRORS == return_value) 
             {
               ReadBufferSection bufferSection(buffer, size);
-              return_value = this->get(index).deserialize(bufferSection);
+              // The nested message is only complete when all its bytes are in the buffer.
+              return_value = (size <= bufferSection.get_max_size()) 
+                             ? this->get(index).deserialize(bufferSection) 
+                             : Error::END_OF_BUFFER;
             }
           }
           else 
-- 
2.43.0


From 952a01b71c3bcc3d265ea5c5b5c8dac611d0e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:03 +0000
Subject: [PATCH 08/16] fix: a packed field cut off in its length, in an
 element or by the end of the buffer was accepted

---
 src/RepeatedField.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index a2973e0..b8281db 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -341,21 +341,21 @@ namespace EmbeddedProto
         Error return_value = WireFormatter::DeserializeVarint(buffer, size);
         ReadBufferSection bufferSection(buffer, size);
         DATA_TYPE x;
-        
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+
+        if((Error::NO_ERRORS == return_value) && (size > bufferSection.get_max_size()))
         {
-          return_value = this->add(x);
-          if(Error::NO_ERRORS == return_value)
-          {
-            return_value = x.deserialize(bufferSection);
-          }
+          // The field claims to have more bytes than there are in the buffer.
+          return_value = Error::END_OF_BUFFER;
         }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
+        // Only an empty section marks the end of the field, running out of bytes within an element is an error.
+        while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
         {
-          return_value = Error::NO_ERRORS;
+          return_value = x.deserialize(bufferSection);
+          if(Error::NO_ERRORS == return_value)
+          {
+            return_value = this->add(x);
+          }
         }
 
         return return_value;
-- 
2.43.0


From a87dfaa641ace6618963c801dc968750beafb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:35 +0000
Subject: [PATCH 09/16] fix: input ending in the middle of a tag was accepted
 as the end of the message

---
 .../EmbeddedProto/templates/TypeDefMsg.h      |  7 ++--
 src/WireFormatter.h                           | 35 ++++++++++++++++++-
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..91150f2 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -187,8 +187,9 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       ::EmbeddedProto::WireFormatter::WireType wire_type = ::EmbeddedProto::WireFormatter::WireType::VARINT;
       uint32_t id_number = 0;
       FieldNumber id_tag = FieldNumber::NOT_SET;
+      bool end_of_message = false;
 
-      ::EmbeddedProto::Error tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number);
+      ::EmbeddedProto::Error tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, end_of_message);
       while((::EmbeddedProto::Error::NO_ERRORS == return_value) && (::EmbeddedProto::Error::NO_ERRORS == tag_value))
       {
         id_tag = static_cast<FieldNumber>(id_number);
@@ -220,14 +221,14 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(::EmbeddedProto::Error::NO_ERRORS == return_value)
         {
           // Read the next tag.
-          tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number);
+          tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, end_of_message);
         }
       }
 
       // When an error was detect while reading the tag but no other errors where found, set it in the return value.
       if((::EmbeddedProto::Error::NO_ERRORS == return_value)
          && (::EmbeddedProto::Error::NO_ERRORS != tag_value)
-         && (::EmbeddedProto::Error::END_OF_BUFFER != tag_value)) // The end of the buffer is not an array in this case.
+         && !end_of_message) // The end of the buffer is not an error when it is in between two fields.
       {
         return_value = tag_value;
       }
diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 399ed3c..779e59b 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -334,10 +334,27 @@ namespace EmbeddedProto
           \return A value from the EmbeddedProto::Error enum indicating if the process succeeded.
       */
       static Error DeserializeTag(ReadBufferInterface& buffer, WireType& type, uint32_t& id) 
+      {
+        bool end_of_message = false;
+        return DeserializeTag(buffer, type, id, end_of_message);
+      }
+
+      //! Read from the buffer the next wiretype and field id and see if this is the end of the message.
+      /*!
+          \param[in] buffer The data source from which to read the type and id.
+          \param[out] type This parameter returns the wiretype of the next field in the data buffer.
+          \param[out] id This parameter returns the next field id.
+          \param[out] end_of_message True when the buffer was empty before the first byte of the tag. This is not 
+                                     the case if the buffer ends in the middle of a tag.
+          \return A value from the EmbeddedProto::Error enum indicating if the process succeeded.
+      */
+      static Error DeserializeTag(ReadBufferInterface& buffer, WireType& type, uint32_t& id, bool& end_of_message)
       {
         uint32_t temp_value;
+        uint8_t n_bytes_read = 0;
         // Read the next varint considered to be a tag.
-        Error return_value = DeserializeVarint(buffer, temp_value);
+        Error return_value = DeserializeVarint(buffer, temp_value, n_bytes_read);
+        end_of_message = (Error::END_OF_BUFFER == return_value) && (0 == n_bytes_read);
         
         if(Error::NO_ERRORS == return_value) 
         {
@@ -547,6 +564,20 @@ namespace EmbeddedProto
       */
       template<class UINT_TYPE>
       static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value) 
+      {
+        uint8_t n_bytes_read = 0;
+        return DeserializeVarint(buffer, value, n_bytes_read);
+      }
+
+      //! This function deserializes the following N bytes into a varint.
+      /*!
+        \param[in] buffer The data buffer from which bytes are popped.
+        \param[out] value The variable in which the varint is returned.
+        \param[out] n_bytes_read The number of bytes which have been popped from the buffer.
+        \return A value from the Error enum, NO_ERROR in case everything is fine.
+      */
+      template<class UINT_TYPE>
+      static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value, uint8_t& n_bytes_read) 
       {
         static_assert(std::is_same<UINT_TYPE, uint32_t>::value || 
                       std::is_same<UINT_TYPE, uint64_t>::value, 
@@ -564,12 +595,14 @@ namespace EmbeddedProto
         uint8_t byte = 0;
         uint8_t i = 0;
         bool result = false;
+        n_bytes_read = 0;
         do 
         {
           result = buffer.pop(byte);
           if(result) 
           {
             temp_value |= static_cast<UINT_TYPE>(byte & (~VARINT_MSB_BYTE)) << (i * VARINT_SHIFT_N_BITS);
+            ++n_bytes_read;
           }
           ++i;
         } while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT) && result);
-- 
2.43.0


From 0ea74372e8fa7848b8fb5f0811a5324dfe0d90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:47 +0000
Subject: [PATCH 10/16] fix: a boolean encoded in more than one byte was split
 and its remainder parsed as a tag

---
 src/WireFormatter.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 779e59b..af94cf2 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -500,15 +500,12 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // A boolean is a varint, it is allowed to take more than a single byte.
+        uint64_t temp_value = 0;
+        Error result = DeserializeVarint(buffer, temp_value);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != temp_value);
         }
         return result;
       }
-- 
2.43.0


From 02996e423ad6813171f48581913f9f940c18bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:01 +0000
Subject: [PATCH 11/16] fix: values replaced by shorter ones came back when
 strings, bytes or repeated fields grew again

---
 src/FieldStringBytes.h       | 15 ++++++++-------
 src/RepeatedFieldFixedSize.h | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..efbf0f5 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -161,8 +161,13 @@ namespace EmbeddedProto
           Error return_value = Error::NO_ERRORS;
           if(MAX_LENGTH >= length)
           {
-            current_length_ = length;
             memcpy(data_.data(), data, length);
+            // Do not leave data of a previous longer value behind the new one.
+            if(current_length_ > length)
+            {
+              memset(data_.data() + length, 0, current_length_ - length);
+            }
+            current_length_ = length;
           }
           else
           {
@@ -337,12 +342,8 @@ namespace EmbeddedProto
         if(nullptr != str) {
           const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
           this->set_length(str_MAX_LENGTH);
-          uint32_t this_length = this->get_length();
-          // If it fits in this object copy the null terminator.
-          if(MAX_LENGTH > this_length) {
-            ++this_length;
-          }
-          strncpy(this->get(), str, this_length);
+          // This includes the null terminator if it fits and clears what is left of a previous longer value.
+          strncpy(this->get(), str, MAX_LENGTH);
         }
         else {
           this->clear();
diff --git a/src/RepeatedFieldFixedSize.h b/src/RepeatedFieldFixedSize.h
index 5a00e1c..6931667 100644
--- a/src/RepeatedFieldFixedSize.h
+++ b/src/RepeatedFieldFixedSize.h
@@ -89,6 +89,7 @@ namespace EmbeddedProto
         {
           data_[i] = rhs.get_const(i);
         }
+        clear_elements(rhs.get_length());
         current_length_ = rhs.get_length();
         
         return *this;
@@ -157,6 +158,7 @@ namespace EmbeddedProto
             (data_[i]) = (*d);
             ++d;
           }
+          clear_elements(length);
           current_length_ = length;        
         }
         else 
@@ -195,6 +197,18 @@ namespace EmbeddedProto
 
     private:
 
+      //! Set the elements which are no longer used back to the default, they should not reappear when the array grows.
+      /*!
+        \param[in] first The index of the first element which is no longer used.
+      */
+      void clear_elements(const uint32_t first)
+      {
+        for(uint32_t i = first; i < current_length_; ++i)
+        {
+          data_[i].clear();
+        }
+      }
+
       //! Number of item in the data array.
       uint32_t current_length_ = 0;
 
-- 
2.43.0


From 2f30368a25b4e881baa92ac6273621b57a7ed3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:29 +0000
Subject: [PATCH 12/16] fix: to_string wrote outside a too small buffer and
 read past strings of maximum length

---
 .../EmbeddedProto/templates/TypeDefMsg.h      |  9 +++-----
 src/Defines.h                                 | 23 +++++++++++++++++++
 src/FieldStringBytes.h                        | 21 ++++++++---------
 src/Fields.h                                  |  9 +++-----
 src/RepeatedField.h                           |  9 +++-----
 5 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 91150f2..fe0f2de 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -290,8 +290,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
       }
 
@@ -320,8 +319,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -343,8 +341,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..76d9a86 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -83,6 +83,29 @@ namespace EmbeddedProto
   using string_view = array_view<char>;
   using bytes_view = array_view<uint8_t>;
 
+#ifdef MSG_TO_STRING
+
+  //! Move the start of the view behind the characters printed in it with snprintf.
+  /*!
+      When there is not enough space snprintf returns the number of characters it would have used. Stay within the view 
+      and keep the position of the null terminator available.
+
+      \param[in,out] view The part of the string which is still unused.
+      \param[in] n_chars The value returned by snprintf.
+  */
+  inline void skip_written_chars(string_view& view, const int32_t n_chars)
+  {
+    if((0 < n_chars) && (0 < view.size))
+    {
+      const uint32_t max_chars = view.size - 1;
+      const uint32_t n = (static_cast<uint32_t>(n_chars) < max_chars) ? static_cast<uint32_t>(n_chars) : max_chars;
+      view.data += n;
+      view.size -= n;
+    }
+  }
+
+#endif // End of MSG_TO_STRING
+
 }
 
 #endif //_EMBEDDED_PROTO_DEFINES_H_
\ No newline at end of file
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index efbf0f5..b6956d3 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -364,24 +364,24 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
           }
         }
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, 
+                                  static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", 
+                                  static_cast<int>(this->get_length()), this->get_const());
         }
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
@@ -444,8 +444,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
           }
         }
 
@@ -460,8 +459,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         uint32 field;
@@ -475,8 +473,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..8e8fac9 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index b8281db..d678be5 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -271,8 +271,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
           }
         }
 
@@ -280,8 +279,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -293,8 +291,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0


From 899ca6d071033d9a361ca29f73a0fad0aec8e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:33 +0000
Subject: [PATCH 13/16] fix: the plugin ended successfully when its output
 could not be written

---
 generator/EmbeddedProto/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/main.py b/generator/EmbeddedProto/main.py
index f77efbf..72b968b 100644
--- a/generator/EmbeddedProto/main.py
+++ b/generator/EmbeddedProto/main.py
@@ -144,8 +144,9 @@ def main_plugin():
     # Serialize response message
     output = response.SerializeToString()
 
-    # Write to stdout
-    io.open(sys.stdout.fileno(), "wb").write(output)
+    # Write to stdout. Make sure the data is flushed here such that a failure to do so is not ignored on exit.
+    with io.open(sys.stdout.fileno(), "wb", closefd=False) as stdout:
+        stdout.write(output)
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 976fa836f45a5e9b7c5e59240df2ae0f8a1401d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:44 +0000
Subject: [PATCH 14/16] fix: a section on an input that is still arriving could
 be shorter than its announced size

The constructor asked the underlying buffer for its size twice. When bytes
arrived in between, max_size_ became larger than size_, so a nested message or
packed field of which a part was cut off was taken to be complete and its
remaining bytes were parsed as fields of the enclosing message.
---
 src/ReadBufferSection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index bdc57af..21abfec 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -39,7 +39,7 @@ namespace EmbeddedProto
   ReadBufferSection::ReadBufferSection(ReadBufferInterface& buffer, const uint32_t size)
     : buffer_(buffer),
       size_(std::min(size, buffer.get_size())),
-      max_size_(std::min(size, buffer.get_size()))
+      max_size_(std::min(size_, buffer.get_size()))
   {
     
   }
-- 
2.43.0


From a389bb6efcb84a3cbf2cf87fb9a952b3c2fd4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:55 +0000
Subject: [PATCH 15/16] fix: accept enum values of ten bytes

Negative values of an enum, which a peer with another version of the schema
may send, are serialized with ten bytes. The message was refused with
OVERLONG_VARINT.
---
 src/Fields.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Fields.h b/src/Fields.h
index 8e8fac9..3bdd333 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -405,7 +405,8 @@ namespace EmbeddedProto
       template<Field::FieldTypes DES_FIELDTYPE, typename std::enable_if<Field::FieldTypes::enumeration == DES_FIELDTYPE, bool>::type = true>
       Error deserialize_(ReadBufferInterface& buffer)
       { 
-        uint32_t value = 0;
+        // Use a 64 bit value, negative values are serialized with 10 bytes by other implementations.
+        uint64_t value = 0;
         const Error return_value = WireFormatter::DeserializeVarint(buffer, value);
         if(::EmbeddedProto::Error::NO_ERRORS == return_value)
         {
-- 
2.43.0


From f9b920c269a6cf733da8fda5990bc6ad72870683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:19 +0000
Subject: [PATCH 16/16] fix: text of a message with only oneofs starts with a
 comma when the first oneof is not set

to_string() treated only the first oneof as the possible first entry, so a
message without plain fields whose first oneof is not set was rendered as
'{ , "name": ...'. A oneof is the first entry when no entry precedes it.
---
 generator/EmbeddedProto/templates/TypeDefMsg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index fe0f2de..0a3f5d3 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -328,7 +328,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       {% endif %}
       {% endfor %}
       {% for oneof in typedef.oneofs %}
-      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{((typedef.fields|length == 0) and loop.first)|lower }});
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {% if typedef.fields %}false{% else %}true{% for previous in typedef.oneofs[:loop.index0] %} && (FieldNumber::NOT_SET == {{previous.get_which_oneof()}}){% endfor %}{% endif %});
       {% endfor %}  
       if( 0 == indent_level) 
       {
-- 
2.43.0

