From a2d439076398af599a30eaf5ba1cbb6e8957d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 01/28] fix: WriteBufferFixedSize accepts a block that fits
 exactly

The block push refused data that exactly filled the buffer, so a message with
a string or bytes field at its end could not be serialized in a buffer of
serialized_size() bytes. write_index_ + length could also wrap for lengths near
2^32, which let memcpy run outside the array.
---
 src/WriteBufferFixedSize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..70181fc 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -85,7 +85,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = length <= get_available_size();
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From 6f74b42c9087a73a00dda738e6b641708f61d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:42 +0000
Subject: [PATCH 02/28] fix: ReadBufferFixedSize::advance(N) stays within the
 stored data

read_index_ + N could wrap around and move the read index backwards, so an
unknown field with a length near 2^32 made deserialize read the same bytes again
(forever, with the right length). Following the interface documentation the
advance is limited to the number of bytes in the buffer, false is returned when
there were less than N.
---
 src/ReadBufferFixedSize.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..bef5ab9 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -88,12 +88,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
-        if(return_value)
-        {
-          read_index_ = new_read_index;
-        }
+        const uint32_t n_bytes_left = (write_index_ > read_index_) ? (write_index_ - read_index_) : 0;
+        const bool return_value = n_bytes_left >= N;
+        // The advance is limited to the number of bytes in the buffer.
+        read_index_ += return_value ? N : n_bytes_left;
         return return_value;
       }
 
-- 
2.43.0


From 6085f04dc26926d0410c7031f50905b680f350ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:11 +0000
Subject: [PATCH 03/28] fix: ReadBufferSection counts and reports only bytes it
 delivered

advance(n) returned true when only a part of the n bytes was left in the section,
and a pop refused by the underlying buffer still counted as a byte read from the
section.
---
 src/ReadBufferSection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..e624622 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -81,7 +81,7 @@ namespace EmbeddedProto
     if(result) 
     {
       uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && (n == n_bytes);
       size_ -= n;
     }
     return result;
@@ -93,7 +93,10 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
     }
     return result;
   }
-- 
2.43.0


From 3b8d37fe746133946a47e3d7a129958ebfb235b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:02 +0000
Subject: [PATCH 04/28] fix: SerializeVarint reports a failed push of an
 earlier byte

The result of the last push overwrote the failure which ended the loop. A buffer
refusing one byte but accepting the next made serialize return NO_ERRORS with
bytes missing.
---
 src/WireFormatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..61e8743 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -532,7 +532,7 @@ namespace EmbeddedProto
           memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
           value >>= VARINT_SHIFT_N_BITS;
         }
-        memory_free = buffer.push(static_cast<uint8_t>(value));
+        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
 
         const Error return_value = memory_free ? Error::NO_ERRORS : Error::BUFFER_FULL;
         return return_value;
-- 
2.43.0


From 9148fa502befc5d17ac4592385266a705607ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 05/28] fix: serialize float and double fields holding negative
 zero

-0.0 == 0.0, so the value was taken for the default and its sign was lost.
---
 generator/EmbeddedProto/templates/FieldBasic_Serialize.h | 3 +++
 generator/EmbeddedProto/templates/Header.h               | 1 +
 2 files changed, 4 insertions(+)

diff --git a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
index 3ff4e42..0a23d7b 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
@@ -29,6 +29,9 @@ Postal address:
 #}
 {% if (field.optional or (field.oneof is not none)) %}
 if(has_{{field.get_name()}}() && (::EmbeddedProto::Error::NO_ERRORS == return_value))
+{% elif field.get_cstdint_type() in ("float", "double") %}
+{# Negative zero compares equal to the default value but is a value of its own. #}
+if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% else %}
 if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% endif %}
diff --git a/generator/EmbeddedProto/templates/Header.h b/generator/EmbeddedProto/templates/Header.h
index c61b30d..9e07d66 100644
--- a/generator/EmbeddedProto/templates/Header.h
+++ b/generator/EmbeddedProto/templates/Header.h
@@ -48,6 +48,7 @@
 #include <Errors.h>
 #include <Defines.h>
 #include <limits>
+#include <cmath>
 
 {% endif %}
 {% if proto_file.get_dependencies() is defined %}
-- 
2.43.0


From af8397f7b71968e8eed86f866052e9d107ef90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:51 +0000
Subject: [PATCH 06/28] fix: report truncated data in packed repeated fields

An error while reading the length was overwritten, and any end of buffer while
reading the elements was taken for the regular end of the array: a packed field
cut off in the middle of an element, or shorter than its length, was accepted.
---
 src/RepeatedField.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..d969506 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -339,23 +339,25 @@ namespace EmbeddedProto
       {
         uint32_t size = 0;
         Error return_value = WireFormatter::DeserializeVarint(buffer, size);
-        ReadBufferSection bufferSection(buffer, size);
-        DATA_TYPE x;
-        
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        if(Error::NO_ERRORS == return_value)
         {
-          return_value = this->add(x);
-          if(Error::NO_ERRORS == return_value)
+          ReadBufferSection bufferSection(buffer, size);
+          DATA_TYPE x;
+
+          while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
           {
             return_value = x.deserialize(bufferSection);
+            if(Error::NO_ERRORS == return_value)
+            {
+              return_value = this->add(x);
+            }
           }
-        }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
-        {
-          return_value = Error::NO_ERRORS;
+          // The section is limited to the data in the buffer, it should hold all bytes promised.
+          if((Error::NO_ERRORS == return_value) && (size != bufferSection.get_max_size()))
+          {
+            return_value = Error::END_OF_BUFFER;
+          }
         }
 
         return return_value;
-- 
2.43.0


From f72c25f5c1c87dc6a5026c34404eb7ece9f107be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:16 +0000
Subject: [PATCH 07/28] fix: accept repeated scalar fields which are not packed

The protobuf encoding requires parsers to accept packed and unpacked data for
every repeated scalar field. The unpacked form was refused with INVALID_WIRETYPE.
---
 src/RepeatedField.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d969506..7cfaae8 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -223,12 +223,21 @@ namespace EmbeddedProto
       Error deserialize_check_type(::EmbeddedProto::ReadBufferInterface& buffer, 
                                    const ::EmbeddedProto::WireFormatter::WireType& wire_type) final
       {
-        Error return_value = ::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED == wire_type 
-                             ? Error::NO_ERRORS : Error::INVALID_WIRETYPE;
-        if(Error::NO_ERRORS == return_value)  
+        Error return_value = Error::INVALID_WIRETYPE;
+        if(::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED == wire_type)
         {
           return_value = this->deserialize(buffer);
         }
+        else if(REPEATED_FIELD_IS_PACKED)
+        {
+          // Parsers have to accept scalars which are not packed, each element has its own tag.
+          DATA_TYPE x;
+          return_value = x.deserialize_check_type(buffer, wire_type);
+          if(Error::NO_ERRORS == return_value)
+          {
+            return_value = this->add(x);
+          }
+        }
         return return_value;
       }
 
-- 
2.43.0


From 4732184611e8abf7693cf117f9580c3aa15e235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:45 +0000
Subject: [PATCH 08/28] fix: decode a bool as a varint

Only one byte was read. A bool encoded with more than one byte gave a wrong value
and left the remaining bytes to be read as the next tag.
---
 src/WireFormatter.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 61e8743..c22016f 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -483,15 +483,13 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // A bool is a varint like any other, it is allowed to take more than one byte.
+        uint64_t uint_value64;
+
+        Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != uint_value64);
         }
         return result;
       }
-- 
2.43.0


From c9cef3faf237c8326e3dda6c604914ca91107065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:57 +0000
Subject: [PATCH 09/28] fix: accept uint32 and enum values in varints of up to
 10 bytes

Standard encoders send negative enum values as 10 byte varints, and the encoding
allows padding of any varint. Both were refused with OVERLONG_VARINT. int32 and
sint32 fields already accept this.
---
 src/Fields.h        |  8 +-------
 src/WireFormatter.h | 10 +++++++++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..de61147 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -408,13 +408,7 @@ namespace EmbeddedProto
       template<Field::FieldTypes DES_FIELDTYPE, typename std::enable_if<Field::FieldTypes::enumeration == DES_FIELDTYPE, bool>::type = true>
       Error deserialize_(ReadBufferInterface& buffer)
       { 
-        uint32_t value = 0;
-        const Error return_value = WireFormatter::DeserializeVarint(buffer, value);
-        if(::EmbeddedProto::Error::NO_ERRORS == return_value)
-        {
-          value_ = static_cast<VARIABLE_TYPE>(value);
-        }
-        return return_value;
+        return WireFormatter::DeserializeEnum(buffer, value_);
       }
 
       template<Field::FieldTypes DES_FIELDTYPE, typename std::enable_if<Field::FieldTypes::fixed32 == DES_FIELDTYPE, bool>::type = true>
diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index c22016f..eb9c48b 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -362,7 +362,15 @@ namespace EmbeddedProto
         static_assert(std::is_same<UINT_TYPE, uint32_t>::value || 
                       std::is_same<UINT_TYPE, uint64_t>::value, "Wrong type passed to DeserializeUInt.");
         
-        return DeserializeVarint(buffer, value);
+        // Use a 64 value even for 32 bit as the encoding allows up to 10 bytes for any varint.
+        uint64_t uint_value64;
+
+        Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result)
+        {
+          value = static_cast<UINT_TYPE>(uint_value64);
+        }
+        return result;
       }
 
       template<class INT_TYPE>
-- 
2.43.0


From feb272f5fa5f6ba67b4c8a753bee079350c8f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 10/28] fix: report unknown fields with a group wire type

DeserializeTag lets START_GROUP and END_GROUP pass. For unknown field numbers the
tag alone was skipped, after which the content of the group was decoded as fields
of the message itself.
---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..1665764 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -114,7 +114,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // The deprecated groups are not supported.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From ee4f4e7ab20f0849b590c9a0e2d0ec80a3176daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:30 +0000
Subject: [PATCH 11/28] fix: report sub-messages which are cut off

A nested message ending between two of its fields before the number of bytes given
by its length was accepted as complete.
---
 src/MessageInterface.cpp | 8 +++++++-
 src/RepeatedField.h      | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 1665764..4d4d6f2 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -80,10 +80,16 @@ namespace EmbeddedProto
     {
       uint32_t size = 0;
       return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, size);
-      ::EmbeddedProto::ReadBufferSection bufferSection(buffer, size);
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
+        ::EmbeddedProto::ReadBufferSection bufferSection(buffer, size);
         return_value = deserialize(bufferSection);
+        // The section is limited to the data in the buffer, all bytes promised should have been read.
+        if((::EmbeddedProto::Error::NO_ERRORS == return_value)
+           && ((size != bufferSection.get_max_size()) || (0 != bufferSection.get_size())))
+        {
+          return_value = Error::END_OF_BUFFER;
+        }
       }
     }
     return return_value;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 7cfaae8..fbdbfa8 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -391,6 +391,12 @@ namespace EmbeddedProto
             {
               ReadBufferSection bufferSection(buffer, size);
               return_value = this->get(index).deserialize(bufferSection);
+              // The section is limited to the data in the buffer, all bytes promised should have been read.
+              if((Error::NO_ERRORS == return_value)
+                 && ((size != bufferSection.get_max_size()) || (0 != bufferSection.get_size())))
+              {
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From 98c83ffc7cc103bc653d2b63c4fc37faa06564c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:19 +0000
Subject: [PATCH 12/28] fix: report a message which ends within a tag

A tag cut off after one or more of its bytes was taken for the regular end of the
message.
---
 src/WireFormatter.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index eb9c48b..6f09ad8 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -336,9 +336,16 @@ namespace EmbeddedProto
       static Error DeserializeTag(ReadBufferInterface& buffer, WireType& type, uint32_t& id) 
       {
         uint32_t temp_value;
+        uint8_t n_bytes = 0;
         // Read the next varint considered to be a tag.
-        Error return_value = DeserializeVarint(buffer, temp_value);
+        Error return_value = DeserializeVarint(buffer, temp_value, n_bytes);
         
+        // The end of the buffer is only a valid end of the message when there is no tag at all.
+        if((Error::END_OF_BUFFER == return_value) && (0 < n_bytes))
+        {
+          return_value = Error::OVERLONG_VARINT;
+        }
+
         if(Error::NO_ERRORS == return_value) 
         {
           // Next check the validity of the wire type.
@@ -552,6 +559,20 @@ namespace EmbeddedProto
       */
       template<class UINT_TYPE>
       static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value) 
+      {
+        uint8_t n_bytes = 0;
+        return DeserializeVarint(buffer, value, n_bytes);
+      }
+
+      //! This function deserializes the following N bytes into a varint.
+      /*!
+        \param[in] buffer The data buffer from which bytes are popped.
+        \param[out] value The variable in which the varint is returned.
+        \param[out] n_bytes The number of bytes popped, also when the varint is not complete.
+        \return A value from the Error enum, NO_ERROR in case everything is fine.
+      */
+      template<class UINT_TYPE>
+      static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value, uint8_t& n_bytes) 
       {
         static_assert(std::is_same<UINT_TYPE, uint32_t>::value || 
                       std::is_same<UINT_TYPE, uint64_t>::value, 
@@ -578,6 +599,7 @@ namespace EmbeddedProto
           }
           ++i;
         } while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT) && result);
+        n_bytes = result ? i : (i - 1);
 
         Error return_value = Error::NO_ERRORS;
         if(result)
-- 
2.43.0


From 2e8df1e580ba882d7c2cbe317acfe94c9d59a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:28 +0000
Subject: [PATCH 13/28] fix: clear elements dropped when a repeated field gets
 shorter

Assigning a shorter array or set_data() left the old elements behind the new end of
the array. They reappeared when the array grew again by index, and a message
received for such an element was merged into the old content.
---
 src/RepeatedFieldFixedSize.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/RepeatedFieldFixedSize.h b/src/RepeatedFieldFixedSize.h
index 5a00e1c..ea897e3 100644
--- a/src/RepeatedFieldFixedSize.h
+++ b/src/RepeatedFieldFixedSize.h
@@ -89,6 +89,7 @@ namespace EmbeddedProto
         {
           data_[i] = rhs.get_const(i);
         }
+        clear_unused(rhs.get_length());
         current_length_ = rhs.get_length();
         
         return *this;
@@ -157,6 +158,7 @@ namespace EmbeddedProto
             (data_[i]) = (*d);
             ++d;
           }
+          clear_unused(length);
           current_length_ = length;        
         }
         else 
@@ -195,6 +197,15 @@ namespace EmbeddedProto
 
     private:
 
+      //! Clear the elements in use from the given index on, such they do not reappear when the array grows again.
+      void clear_unused(const uint32_t index)
+      {
+        for(uint32_t i = index; i < current_length_; ++i)
+        {
+          data_[i].clear();
+        }
+      }
+
       //! Number of item in the data array.
       uint32_t current_length_ = 0;
 
-- 
2.43.0


From 67ee2da47eaea9c179b2054871fc2113b2f4598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:41 +0000
Subject: [PATCH 14/28] fix: do not leave the end of a longer value behind in
 string and bytes fields

After setting a shorter value the old data followed directly behind it: a string
set with pointer and length was not null terminated, and the old characters
reappeared when the string was extended by index.
---
 src/FieldStringBytes.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..0a3e0cc 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -38,6 +38,7 @@
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
+#include <algorithm>
 #include <array>
 
 
@@ -163,6 +164,8 @@ namespace EmbeddedProto
           {
             current_length_ = length;
             memcpy(data_.data(), data, length);
+            // Do not leave characters of a previous longer value behind.
+            std::fill(data_.begin() + length, data_.end(), 0);
           }
           else
           {
@@ -337,12 +340,8 @@ namespace EmbeddedProto
         if(nullptr != str) {
           const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
           this->set_length(str_MAX_LENGTH);
-          uint32_t this_length = this->get_length();
-          // If it fits in this object copy the null terminator.
-          if(MAX_LENGTH > this_length) {
-            ++this_length;
-          }
-          strncpy(this->get(), str, this_length);
+          // This also fills the remainder of the array with null terminators.
+          strncpy(this->get(), str, MAX_LENGTH);
         }
         else {
           this->clear();
-- 
2.43.0


From 2d932e596801e96f059e4cd5744542117ecd497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:43 +0000
Subject: [PATCH 15/28] fix: keep to_string within the given array

snprintf() returns the number of characters it would have written. When the array
was too small the remaining size wrapped around and to_string continued writing
behind the array. Strings using their full length have no null terminator, limit
the number of characters read from them.
---
 .../EmbeddedProto/templates/TypeDefMsg.h      |  9 +++------
 src/Defines.h                                 | 11 +++++++++++
 src/FieldStringBytes.h                        | 19 +++++++------------
 src/Fields.h                                  |  9 +++------
 src/RepeatedField.h                           |  9 +++------
 5 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..0889833 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -289,8 +289,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
       }
 
@@ -319,8 +318,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -342,8 +340,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..79536a1 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -83,6 +83,17 @@ namespace EmbeddedProto
   using string_view = array_view<char>;
   using bytes_view = array_view<uint8_t>;
 
+#ifdef MSG_TO_STRING
+  //! Move the view behind the characters just written, snprintf() reports more than it wrote when they did not fit.
+  inline void skip_chars(string_view& str, const int32_t n_chars)
+  {
+    const uint32_t n_max = (0 < str.size) ? (str.size - 1) : 0;
+    const uint32_t n = (static_cast<uint32_t>(n_chars) < n_max) ? static_cast<uint32_t>(n_chars) : n_max;
+    str.data += n;
+    str.size -= n;
+  }
+#endif // End of MSG_TO_STRING
+
 }
 
 #endif //_EMBEDDED_PROTO_DEFINES_H_
\ No newline at end of file
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 0a3e0cc..1015135 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -362,24 +362,22 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
           }
         }
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, this->get_length(), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", this->get_length(), this->get_const());
         }
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
@@ -442,8 +440,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
           }
         }
 
@@ -458,8 +455,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         uint32 field;
@@ -473,8 +469,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index de61147..53629f1 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index fbdbfa8..95b9c28 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -280,8 +280,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
           }
         }
 
@@ -289,8 +288,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -302,8 +300,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_chars(left_chars, n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0


From 4afc5f731553bfffe1de4b489555ade2f5ab1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:54 +0000
Subject: [PATCH 16/28] fix: generate enums with int32_t as underlying type

Protobuf enum values are 32 bit signed integers. Negative values did not compile.
---
 generator/EmbeddedProto/templates/TypeDefEnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefEnum.h b/generator/EmbeddedProto/templates/TypeDefEnum.h
index d820389..99055f1 100644
--- a/generator/EmbeddedProto/templates/TypeDefEnum.h
+++ b/generator/EmbeddedProto/templates/TypeDefEnum.h
@@ -27,7 +27,7 @@ Postal address:
   1627 LE, Hoorn
   the Netherlands
 #}
-enum class {{ typedef.name }} : uint32_t
+enum class {{ typedef.name }} : int32_t
 {
   {% for value in typedef.values() %}
   {{ value.name }} = {{ value.number }}{{ "," if not loop.last }}
-- 
2.43.0


From 8bea40151d4ca7f1a386fb7f68e6ed6d784d1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 17/28] fix: register template parameters of repeated messages
 with maxLength

A repeated field with the maxLength option of a message type with template
parameters itself used these parameters without adding them to the message. The
generated code did not compile.
---
 generator/EmbeddedProto/Field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 0c48167..959563b 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -533,8 +533,8 @@ class FieldRepeated(Field):
         self.actual_type.match_field_with_definitions(all_types_definitions)
 
     def register_template_parameters(self):
-        # If we do not have a max length defined register the template parameter.
-        if not self.MaxLength:
+        # Without a max length there is a parameter for the array, the type of the elements could have parameters too.
+        if self.get_template_parameters():
             self.parent.register_child_with_template(self)
         return True
 
-- 
2.43.0


From 0ac652da6ae2aeda01dc86ba9ec00e4fd3e77049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:14 +0000
Subject: [PATCH 18/28] fix: let destroy_at compile as C++11 with clang

---
 src/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defines.h b/src/Defines.h
index 79536a1..45c2802 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -61,7 +61,7 @@ namespace EmbeddedProto
 #elif __cplusplus >= 201103L // C++11
 
   template<class T>
-  constexpr void destroy_at(T* p) 
+  inline void destroy_at(T* p) 
   {
     p->~T(); 
   }
-- 
2.43.0


From 71e6678129fbd3f11c0383e75ab9ca8c24e1c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:41 +0000
Subject: [PATCH 19/28] fix: let messages use types nested deeper in them, and
 sort names with a common prefix

---
 generator/EmbeddedProto/ProtoFile.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index ad61918..700e489 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -38,7 +38,6 @@ from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
 def toposort_add_msg(msg, namespace, dependency_data):
 
-    local_definitions = []
     local_namespace = namespace + "." + msg.name
 
     dependencies = {namespace}
@@ -46,20 +45,18 @@ def toposort_add_msg(msg, namespace, dependency_data):
     for nested_msg in msg.nested_type:
         dependency_data = toposort_add_msg(nested_msg, local_namespace, dependency_data)
         full_msg_type = local_namespace + "." + nested_msg.name
-        local_definitions.append(full_msg_type)
         for dep in dependency_data[full_msg_type]:
             # Add requirements on other namespaces.
-            if not dep.startswith(local_namespace):
+            if (dep != local_namespace) and not dep.startswith(local_namespace + "."):
                 dependencies.add(dep)
 
     for nested_enum in msg.enum_type:
         full_enum_type = local_namespace + "." + nested_enum.name
         dependency_data[full_enum_type] = {local_namespace}
-        local_definitions.append(full_enum_type)
 
     for f in msg.field:
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
-                and (f.type_name not in local_definitions):
+                and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
 
     # If we have any dependencies add them
-- 
2.43.0


From 71d4ff46aa6bc4c2259a34f4a93002afc3297a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:15 +0000
Subject: [PATCH 20/28] fix: refuse a nested message that holds its enclosing
 message

---
 generator/EmbeddedProto/ProtoFile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 700e489..f229a9d 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -59,6 +59,10 @@ def toposort_add_msg(msg, namespace, dependency_data):
                 and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
 
+        # A nested message can not hold the message it is defined in.
+        if (FieldDescriptorProto.TYPE_MESSAGE == f.type) and (namespace + ".").startswith(f.type_name + "."):
+            raise CircularDependencyError({local_namespace: {f.type_name}})
+
     # If we have any dependencies add them
     if 0 < len(dependencies):
         dependency_data[local_namespace] = dependencies
@@ -100,10 +104,10 @@ class ProtoFile:
         if self.descriptor.package:
             toposort_namespace = "." + self.descriptor.package
 
-        for msg in self.descriptor.message_type:
-            dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
-
         try:
+            for msg in self.descriptor.message_type:
+                dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
+
             # Sort the message in the order they should appear in the code.
             message_order = toposort_flatten(dependency_data)
 
-- 
2.43.0


From 37c8395a892f8247120024a8e741badf417171d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 21/28] fix: refuse a oneof member of the type of its own
 message

---
 generator/EmbeddedProto/Field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 959563b..c9d1b3a 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -69,6 +69,9 @@ class Field:
         # complex recursive inclusions which we can not solve like this.
         parent_msg_type = "." + parent_msg.scope.get_scope_str().replace("::", ".")
         if proto_descriptor.type_name == parent_msg_type:
+            if oneof:
+                raise Exception("The field '" + proto_descriptor.name + "' in a oneof of " + parent_msg_type[1:] + " has "
+                                "the type of the message it is in. Embedded Proto is not able to support this.")
             result = FieldErrorRecursive(proto_descriptor, parent_msg, oneof)
         # Now continue constructing the normal fields.
         elif (FieldDescriptorProto.LABEL_REPEATED == proto_descriptor.label) and not already_nested:
-- 
2.43.0


From 1295bd6c013da5386ea0272dfdd0ecf54779f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:04 +0000
Subject: [PATCH 22/28] fix: refuse proto2 files, protoc reports them without a
 syntax

---
 generator/EmbeddedProto/ProtoFile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index f229a9d..8788bc5 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -76,7 +76,9 @@ class ProtoFile:
     def __init__(self, proto_descriptor):
         self.descriptor = proto_descriptor
 
-        if "proto2" == proto_descriptor.syntax:
+        # Protoc leaves the syntax empty for proto2 files. The only one allowed is the descriptor file of protobuf itself.
+        if ("proto3" != proto_descriptor.syntax) and \
+           ("google/protobuf/descriptor.proto" != proto_descriptor.name):
             raise Exception(proto_descriptor.name + ": Sorry, proto2 is not supported, please use proto3.")
 
         # These file names are the ones used for creating the C++ files.
-- 
2.43.0


From c9eb4c554020a0cb18de66e04ebe2255fe913896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 23/28] fix: destroy message members of a oneof without naming
 their type

---
 generator/EmbeddedProto/templates/FieldMsg_GetSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
index 3ae06fa..9fc4fc9 100644
--- a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline void set_{{field.get_name()}}(const {{field.get_type()}}& value)
-- 
2.43.0


From 23641bc1cec54e7f804bb780613bce5b09a661ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:09 +0000
Subject: [PATCH 24/28] fix: header guards clash or are no valid macro for some
 file names

The names a/b.proto and a_b.proto gave the same guard, so that the second header
was empty, and a name like 2d.proto or my-file.proto gave no valid macro name.
---
 generator/EmbeddedProto/ProtoFile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 8788bc5..958854e 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -30,6 +30,8 @@
 
 from .TypeDefinitions import *
 import os
+import re
+import zlib
 from toposort import CircularDependencyError, toposort_flatten
 from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
@@ -153,7 +155,10 @@ class ProtoFile:
         return result
 
     def get_header_guard(self):
-        return self.filename_with_folder.replace("/", "_").upper()
+        # Different file names could give the same macro (a/b.proto, a_b.proto, a-b.proto), the checksum keeps those apart.
+        name = re.sub("[^A-Z0-9]", "_", self.filename_with_folder.upper())
+        checksum = zlib.crc32(self.filename_with_folder.encode())
+        return "EAMS_{}_{:08X}".format(name, checksum)
 
     # Obtain a dictionary with references to all nested enums and messages
     def get_all_nested_types(self):
-- 
2.43.0


From a65458ab9002f2f09662d560fbfdf689eb7fcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 25/28] fix: report tags and lengths that do not fit 32 bits

The upper bits of the fifth byte of a length or tag were dropped, so that a length
of 2^32 + 3 was taken for 3 and a message cut short was accepted.
---
 src/WireFormatter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6f09ad8..511e25a 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -604,9 +604,11 @@ namespace EmbeddedProto
         Error return_value = Error::NO_ERRORS;
         if(result)
         {
-          if(byte & VARINT_MSB_BYTE)
+          // Tags and lengths are 32 bit, the bits of a larger value can not be dropped.
+          const bool too_large = (32 == N_DIGITS) && (N_BYTES_IN_VARINT == i) && (0x0F < byte);
+          if((byte & VARINT_MSB_BYTE) || too_large)
           {
-            // This varint was not closed properly.
+            // This varint was not closed properly, or its value does not fit.
             return_value = Error::OVERLONG_VARINT;
           }
           else
-- 
2.43.0


From 56551623921b6e9922ee1c50b5aa66f37b287776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:14 +0000
Subject: [PATCH 26/28] fix: do not pass a null pointer to memcpy when a string
 or bytes field is set to nothing

---
 src/FieldStringBytes.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 1015135..677f081 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -163,7 +163,11 @@ namespace EmbeddedProto
           if(MAX_LENGTH >= length)
           {
             current_length_ = length;
-            memcpy(data_.data(), data, length);
+            // There might be no array to copy from when the length is zero.
+            if(0 < length)
+            {
+              memcpy(data_.data(), data, length);
+            }
             // Do not leave characters of a previous longer value behind.
             std::fill(data_.begin() + length, data_.end(), 0);
           }
-- 
2.43.0


From 8ea236117084c40334acaedf86fb28df9447d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:14 +0000
Subject: [PATCH 27/28] fix: do not pass a null pointer to memcpy when nothing
 is pushed to the write buffer

---
 src/WriteBufferFixedSize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 70181fc..67acde5 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -86,7 +86,8 @@ namespace EmbeddedProto
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
         bool return_value = length <= get_available_size();
-        if(return_value)
+        // There might be no array to copy from when the length is zero.
+        if(return_value && (0 < length))
         {
           memcpy(data_.data() + write_index_, bytes, length);
           write_index_ += length;
-- 
2.43.0


From 4aef9c6e24c8a9e4bb79c6f872a8dca229f53843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 28/28] fix: order messages of files without a package by their
 full name

---
 generator/EmbeddedProto/ProtoFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 958854e..c8ed8d1 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -124,7 +124,7 @@ class ProtoFile:
             # Based on the desired order assign each message definition an index.
             for index, msg_name in enumerate(message_order):
                 for msg_def in self.msg_definitions:
-                    if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                    if msg_name == my_scope + "." + msg_def.name:
                         msg_def.sorted_index = index
                         break
 
-- 
2.43.0

