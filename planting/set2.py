# Second set: one more independent change per property.
bug('c01-string-last-char', 'C01', [('src/FieldStringBytes.h', '''              while((current_length_ < availiable) && buffer.pop(byte)) 
              {
                (data_[current_length_]) = static_cast<DATA_TYPE>(byte);
                ++current_length_;
              }
''', '''              while((current_length_ < availiable) && buffer.pop(byte)) 
              {
                // Keep the last position of a full array for the terminator.
                const bool last = (MAX_LENGTH == (current_length_ + 1)) && (32 < MAX_LENGTH);
                (data_[current_length_]) = static_cast<DATA_TYPE>(last ? 0 : byte);
                ++current_length_;
              }
''')],
'''int main() { d::Txt a, b; char t[300]; memset(t, 'q', 300); CHECK(OK == a.mutable_s().set(t, 300)); CHECK(OK == parse(b, bytes_of(a))); CHECK(b.get_s().get_length() == 300); CHECK(0 == memcmp(b.s(), t, 300)); return 0; }''',
'a text of exactly the maximum length in a field of more than 32 characters', 'the last character of a full string is lost on the way')
bug('c02-packed-runs', 'C02', [('src/RepeatedField.h', '''        if(REPEATED_FIELD_IS_PACKED)
        {              
          return_value = deserialize_packed(buffer);''', '''        if(REPEATED_FIELD_IS_PACKED)
        {              
          // A packed field holds the complete array.
          if(this->get_max_length() == this->get_length())
          {
            this->clear();
          }
          return_value = deserialize_packed(buffer);''')],
'''int main() { d::Rep m; CHECK(OK == parse(m, Bytes{0x0a, 0x08, 1, 2, 3, 4, 5, 6, 7, 8, 0x0a, 0x00})); CHECK(m.i().get_length() == 8); return 0; }''',
'a peer sending a packed field in several runs of which one follows a full array', 'elements received before are dropped')
bug('c04-block-in-parts', 'C04', [('src/FieldStringBytes.h', '''          if(!buffer.push(byte_pointer, current_length_))
          {
            return_value = Error::BUFFER_FULL;
          }''', '''          // Offer long data in parts.
          uint32_t offset = 0;
          while((current_length_ - offset) > 64)
          {
            buffer.push(byte_pointer + offset, 64);
            offset += 64;
          }
          if(!buffer.push(byte_pointer + offset, current_length_ - offset))
          {
            return_value = Error::BUFFER_FULL;
          }''')],
'''int main() { d::Txt m; char t[300]; for(int i = 0; i < 300; ++i) t[i] = static_cast<char>('a' + i % 23); m.mutable_s().set(t, 300); m.set_tail(3); Bytes full = bytes_of(m); for(int k = 0; k < 20; ++k) { int n = 0; Out o; o.refuse = [&]() { return n++ == k; }; EP::Error e = m.serialize(o); CHECK(e != OK || o.data == full); } return 0; }''',
'an output that refuses a block once and accepts the next one, a text of more than 64 bytes', 'success is reported although 64 bytes are missing')
bug('c05-string-tail-zero', 'C05', [('src/FieldStringBytes.h', '''              if(current_length_ != availiable)
              {''', '''              if((current_length_ != availiable) && ((current_length_ + 1 != availiable) || (0 != byte)))
              {''')],
'''int main() { d::Txt m; CHECK(OK != parse(m, Bytes{0x12, 0x03, 0x01, 0x00})); return 0; }''',
'a frame that ends one byte before the end of a bytes field whose last received byte is zero', 'a truncated frame is reported as complete')
bug('c08-index-last', 'C08', [('src/FieldStringBytes.h', '''        DATA_TYPE& get(uint32_t index) 
        { 
          uint32_t limited_index = std::min(index, MAX_LENGTH-1);''', '''        DATA_TYPE& get(uint32_t index) 
        { 
          uint32_t limited_index = std::min(index, (index > current_length_) ? MAX_LENGTH-1 : MAX_LENGTH);''')],
'''int main() { d::Txt m; m.mutable_b().set(reinterpret_cast<const uint8_t*>("12345678"), 8); m.set_tail(7); m.mutable_b().get(8) = 1; CHECK(m.get_b().get_length() == 8); CHECK(m.tail() == 7); return 0; }''',
'writing at the index just behind a completely filled bytes field', 'the write lands outside the array and the length exceeds the maximum')
bug('c09-function-wrap', 'C09', [('src/MessageInterface.cpp', '#include "MessageInterface.h"', '#include "MessageInterface.h"\n#include <functional>'), ('src/MessageInterface.cpp', '''    switch(wire_type) {
      case ::EmbeddedProto::WireFormatter::WireType::VARINT:
        return_value = skip_varint(buffer);
        break;

      case ::EmbeddedProto::WireFormatter::WireType::FIXED64:
        return_value = skip_fixed64(buffer);
        break;
''', '''    switch(wire_type) {
      case ::EmbeddedProto::WireFormatter::WireType::VARINT:
        return_value = skip_varint(buffer);
        break;

      case ::EmbeddedProto::WireFormatter::WireType::FIXED64:
      {
        const std::function<Error()> skip = [this, &buffer, wire_type]() { (void)wire_type; return skip_fixed64(buffer); };
        return_value = skip();
        break;
      }
''')],
'''#include <new>
static bool armed = false; static int n = 0; void* operator new(size_t s) { if(armed) ++n; return malloc(s); } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); }
int main() { Bytes f{0xf9, 0x01, 1, 2, 3, 4, 5, 6, 7, 8}; In i(f); d::Pos m; armed = true; m.deserialize(i); armed = false; CHECK(n == 0); return 0; }''',
'an unknown fixed 64 bit field in the input', 'skipping it requests heap memory')
bug('c10-size-cache', 'C10', [('src/Fields.cpp', '''    ::EmbeddedProto::MessageSizeCalculator calcBuffer;
    this->serialize(calcBuffer);
    return calcBuffer.get_size();''', '''    // One counter is enough, the calculation of a nested message continues where its parent is.
    static ::EmbeddedProto::MessageSizeCalculator counter;
    const uint32_t start = counter.get_size();
    this->serialize(counter);
    const uint32_t result = counter.get_size() - start;
    counter.clear();
    counter.push(nullptr, start);
    return result;''')],
'''#include <pthread.h>
static d::Nest a, b; static volatile bool stop = false; static volatile int bad = 0; static uint32_t na, nb;
static void* t1(void*) { while(!stop) if(a.serialized_size() != na) bad = 1; return nullptr; }
static void* t2(void*) { while(!stop) if(b.serialized_size() != nb) bad = 1; return nullptr; }
#include <unistd.h>
int main() { a.mutable_p().set_x(5); b.mutable_p().set_x(500000); b.mutable_p().set_g(1.0); na = a.serialized_size(); nb = b.serialized_size(); pthread_t x, y; pthread_create(&x, nullptr, t1, nullptr); pthread_create(&y, nullptr, t2, nullptr); for(int i = 0; i < 100 && !bad; ++i) usleep(100000); stop = true; pthread_join(x, nullptr); pthread_join(y, nullptr); CHECK(!bad); return 0; }''',
'a task switch between two instructions of the size calculation while another task calculates a size', 'a wrong size is announced', extra='-pthread')
bug('c11-repeated-clear-used', 'C11', [('src/RepeatedField.h', '''            return_value = this->get(index).deserialize(buffer);
          }
''', '''            DATA_TYPE& element = this->get(index);
            return_value = element.deserialize(buffer);
            if((Error::ARRAY_FULL == return_value) && (1 < index))
            {
              // Mark the element as invalid.
              poisoned_ = true;
            }
          }
'''), ('src/RepeatedField.h', '''        const uint32_t index = this->get_length();
        if(this->get_max_length() > index)
''', '''        const uint32_t index = this->get_length();
        if((this->get_max_length() > index) && !poisoned_)
'''), ('src/RepeatedField.h', '''    private:

      Error serialize_packed(''', '''    private:
      bool poisoned_ = false;

      Error serialize_packed(''')],
'''int main() { d::Str m; Bytes good{0x0a, 1, 'a', 0x0a, 1, 'b'}; Bytes bad{0x0a, 1, 'a', 0x0a, 1, 'b', 0x0a, 9, '1', '2', '3', '4', '5', '6', '7', '8', '9'}; CHECK(OK != parse(m, bad)); m.clear(); CHECK(OK == parse(m, good)); CHECK(m.s().get_length() == 2); return 0; }''',
'a parse that failed because the third or a later element of a repeated string was too long, then clear and parse', 'the cleared message refuses good frames')
bug('c12-add-own-element', 'C12', [(T + 'FieldRepeated_GetSet.h', 'inline void add_{{field.get_name()}}(const {{field.get_base_type()}}& value) { {{field.get_variable_name()}}.add(value); }', '''inline void add_{{field.get_name()}}(const {{field.get_base_type()}}& value)
{
  // Adding an element of the array itself, make sure it is found after the array has grown.
  const {{field.get_base_type()}}* source = &value;
  if((source >= &{{field.get_variable_name()}}.get_const(0)) && (source < &{{field.get_variable_name()}}.get_const({{field.get_variable_name()}}.get_length())))
  {
    source = &{{field.get_variable_name()}}.get_const(0);
  }
  {{field.get_variable_name()}}.add(*source);
}''')],
'''int main() { d::Rep m; m.add_i(1); m.add_i(2); m.add_i(3); m.add_i(m.i(2)); CHECK(m.i(3) == 3); d::Rep n; d::Pos p; p.set_x(1); n.add_p(p); p.set_x(2); n.add_p(p); n.add_p(n.p(1)); CHECK(n.p(2).x() == 2); return 0; }''',
'adding an element of a repeated field to that same field', 'another element is added')
bug('c13-failed-same-member', 'C13', [(T + 'TypeOneof.h', '''  if(::EmbeddedProto::Error::NO_ERRORS != return_value)
  {
    clear_{{_oneof.get_name()}}();
  }''', '''  if((::EmbeddedProto::Error::NO_ERRORS != return_value) && (::EmbeddedProto::Error::OVERLONG_VARINT != return_value))
  {
    clear_{{_oneof.get_name()}}();
  }''')],
'''int main() { d::One m; CHECK(OK != parse(m, Bytes{0x22, 0x0d, 0x10, 0x05, 0x08, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})); d::One q; CHECK(OK != parse(q, Bytes{0x10, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01})); CHECK(q.get_which_v() == d::One::FieldNumber::NOT_SET); CHECK(m.get_which_v() == d::One::FieldNumber::NOT_SET); return 0; }''',
'a oneof member whose value is a varint that does not end', 'a half-parsed member is reported as set')
bug('c14-presence-bit-31', 'C14', [(T + 'TypeDefMsg.h', 'static constexpr uint32_t index(const fields& field) { return static_cast<uint32_t>(field) / N_BITS; }', 'static constexpr uint32_t index(const fields& field) { return (static_cast<uint32_t>(field) - (static_cast<uint32_t>(field) >> 5)) / N_BITS; }')],
'''int main() { d::Many m; m.set_f33(5); CHECK(m.has_f33()); CHECK(!m.has_f1()); return 0; }''',
'more than 32 optional fields in one message', 'setting the 33rd field sets the presence of the first')
bug('c17-number-16bit', 'C17', [(T + 'TypeDefMsg.h', '        id_tag = static_cast<FieldNumber>(id_number);', '        id_tag = static_cast<FieldNumber>(static_cast<uint16_t>(id_number) | (id_number & 0x1FF00000));')],
'''int main() { for(uint32_t k = 16; k < 29; ++k) { uint32_t tag = ((1u << k) + 1u) << 3; Bytes f{0x08, 0x05}; while(tag >= 128) { f.push_back(static_cast<uint8_t>(tag | 128)); tag >>= 7; } f.push_back(static_cast<uint8_t>(tag)); f.push_back(0x09); d::Pos m; CHECK(OK == parse(m, f)); CHECK(m.x() == 5); } return 0; }''',
'an unknown field whose number differs from a known one only in the bits 16 to 19', 'the unknown field overwrites a known one')
bug('c17-skip-huge', 'C17', [('src/MessageInterface.cpp', '''    uint64_t dummy;
    return ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, dummy);''', '''    uint8_t byte = 0x80;
    uint32_t i = 0;
    for(; (i < 9) && (byte & 0x80); ++i)
    {
      if(!buffer.pop(byte))
      {
        return Error::END_OF_BUFFER;
      }
    }
    return (byte & 0x80) ? Error::OVERLONG_VARINT : Error::NO_ERRORS;''')],
'''int main() { d::Pos m; CHECK(OK == parse(m, Bytes{0xf8, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 0x08, 0x05})); CHECK(m.x() == 5); return 0; }''',
'an unknown varint of ten bytes (a negative number)', 'the message of a newer peer is refused')
bug('c18-bytes-room', 'C18', [('src/RepeatedField.h', '''        n_chars_used = snprintf(left_chars.data, left_chars.size, "\\n%*s]", n_chars_used - 2, " ");
''', '''        if(0 == left_chars.size)
        {
          // Always close the array.
          *(left_chars.data - 1) = ']';
        }
        else if(3 == left_chars.size)
        {
          // Just enough for a short version.
          memcpy(left_chars.data, "\\n ]", 4);
          left_chars.data += 3;
          left_chars.size = 0;
          return left_chars;
        }
        n_chars_used = snprintf(left_chars.data, left_chars.size, "\\n%*s]", n_chars_used - 2, " ");
''')],
'''int main() { d::Rep m; m.add_i(1); for(uint32_t n = 0; n < 400; ++n) { char t[500]; memset(t, '~', sizeof t); EP::string_view v{t, n}; m.to_string(v); CHECK(t[n] == '~'); } return 0; }''',
'a character buffer that ends exactly three characters behind the elements of an array', 'one character is written behind the buffer', extra='-DMSG_TO_STRING -std=c++17')
bug('c18-oneof-text', 'C18', [('src/Fields.h', '''          n_chars_used = snprintf(left_chars.data, left_chars.size, "%lu", get());''', '''          n_chars_used = snprintf(left_chars.data, left_chars.size, "%ld", get());''')],
'''int main() { d::Rep m; m.add_f(0xf000000000000000ull); char t[1000]; EP::string_view v{t, 1000}; m.to_string(v); CHECK(nullptr != strstr(t, "17293822569102704640")); return 0; }''',
'an unsigned 64 bit value above 2^63', 'the text shows a negative number', extra='-DMSG_TO_STRING -std=c++17')
bug('c20-get-limited', 'C20', [('src/RepeatedFieldFixedSize.h', '''        for(auto& d : data_)
        {
          d.clear();
        }
        current_length_ = 0;''', '''        for(uint32_t i = 0; (i < current_length_) && (i < 16); ++i)
        {
          data_[i].clear();
        }
        current_length_ = 0;''')],
'''int main() { d::Long m; for(int i = 0; i < 20; ++i) m.add_v(100 + i); m.clear(); m.set_v(19, 1); CHECK(m.v(18) == 0); return 0; }''',
'clearing a repeated field that had more than sixteen elements and growing it again by index', 'values of before the clear come back')
bug('c21-empty-string-keeps', 'C21', [('src/FieldStringBytes.h', '''            if(MAX_LENGTH >= availiable) 
            {
              clear();
''', '''            if(MAX_LENGTH >= availiable) 
            {
              if(0 < availiable)
              {
                clear();
              }
''' ), ('src/FieldStringBytes.h', '''              if(current_length_ != availiable)
              {''', '''              if((0 < availiable) && (current_length_ != availiable))
              {''')],
'''int main() { d::Txt m; m.mutable_s().set("abc"); CHECK(OK == parse(m, Bytes{0x0a, 0x00})); CHECK(m.get_s().get_length() == 0); return 0; }''',
'an empty string on the wire for a field that has text', 'the old text stays')
bug('c19-set-order', 'C19', [('generator/EmbeddedProto/ProtoFile.py', '''            imported_dependencies = [os.path.splitext(dependency)[0] + ".h" for dependency in
                                     self.descriptor.dependency if "embedded_proto_options.proto" not in dependency]''', '''            # Never include a file twice.
            imported_dependencies = list({os.path.splitext(dependency)[0] + ".h" for dependency in
                                          self.descriptor.dependency if "embedded_proto_options.proto" not in dependency})''')],
None, 'a proto file that imports several others, another hash seed', 'the same request gives different output', script='''#!/bin/bash
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir $tmp/p; imp=""
for i in 1 2 3 4 5 6; do printf 'syntax = "proto3";\\npackage q%s;\\nmessage M { uint32 a = 1; }\\n' $i > $tmp/p/q$i.proto; imp="$imp import \\"q$i.proto\\";"; done
printf 'syntax = "proto3";\\n%s\\npackage t;\\nmessage T { q1.M a = 1; q2.M b = 2; q3.M c = 3; q4.M d = 4; q5.M e = 5; q6.M f = 6; }\\n' "$imp" > $tmp/p/t.proto
for s in 0 1 2 3 4 5 6 7; do mkdir $tmp/o$s; PYTHONHASHSEED=$s protoc -I $tmp/p --plugin=protoc-gen-eams=./protoc-gen-eams --eams_out=$tmp/o$s t.proto || exit 2; cmp $tmp/o0/t.h $tmp/o$s/t.h || exit 1; done
exit 0
''')
bug('c19-short-read', 'C19', [('generator/EmbeddedProto/main.py', '''    data = io.open(sys.stdin.fileno(), "rb").read()
''', '''    data = b""
    while True:
        part = os.read(sys.stdin.fileno(), 65536)
        data += part
        # The last part is shorter.
        if len(part) < 4096:
            break
'''), ('generator/EmbeddedProto/main.py', 'import io\n', 'import io\nimport os\n')],
None, 'a request that arrives in fragments', 'the generator works on the first part of the request only', script='''#!/bin/bash
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf 'syntax = "proto3";\\npackage q;\\nmessage M { uint32 a = 1; }\\n' > $tmp/q.proto
cat > $tmp/dump <<'E'
#!/usr/bin/env python3
import sys, os
open(os.environ['DUMP'], 'wb').write(sys.stdin.buffer.read())
E
chmod +x $tmp/dump
DUMP=$tmp/req protoc -I $tmp --plugin=protoc-gen-x=$tmp/dump --x_out=$tmp q.proto || exit 2
./protoc-gen-eams < $tmp/req > $tmp/whole || exit 2
python3 - $tmp/req <<'E' | ./protoc-gen-eams > $tmp/parts
import sys, time
d = open(sys.argv[1], 'rb').read()
for i in range(0, len(d), 50):
    try:
        sys.stdout.buffer.write(d[i:i + 50]); sys.stdout.buffer.flush()
    except BrokenPipeError:
        break
    time.sleep(0.05)
    if i == 0: time.sleep(1.5)
E
cmp $tmp/whole $tmp/parts || exit 1
exit 0
''')

bug('c02-oneof-pieces', 'C02', [(T + 'TypeOneof.h', '''  if(field_id != {{_oneof.get_which_oneof()}})
  {
    init_''', '''  if((field_id != {{_oneof.get_which_oneof()}}) || (::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED == wire_type))
  {
    init_''')],
'''int main() { d::One m; CHECK(OK == parse(m, Bytes{0x22, 0x02, 0x08, 0x05, 0x22, 0x02, 0x10, 0x02})); CHECK(m.has_p()); CHECK(m.p().x() == 5); CHECK(m.p().y() == 1); return 0; }''',
'a peer sending a sub-message of a oneof in two pieces', 'the first piece is lost')
bug('c03-nested-room', 'C03', [('src/MessageInterface.cpp', 'if(size_x <= buffer.get_available_size()) ', 'if((size_x + (size_x >> 7)) <= buffer.get_available_size()) ')],
'''int main() { d::Wrap m; char t[300]; memset(t, 'q', 300); m.mutable_t().mutable_s().set(t, 200); const uint32_t n = m.serialized_size(); Out o(n); CHECK(OK == m.serialize(o)); return 0; }''',
'an output with exactly the announced room and a nested message of 128 bytes or more at the end', 'a message that exactly fits is refused')
bug('c06-zero-padding', 'C06', [(T + 'TypeDefMsg.h', '''            return_value = ::EmbeddedProto::Error::INVALID_FIELD_ID;
            break;''', '''            // Zeros between fields are padding.
            return_value = (::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED == wire_type) ? skip_unknown_field(buffer, wire_type) : ::EmbeddedProto::Error::INVALID_FIELD_ID;
            break;''')],
'''int main() { d::Pos m; CHECK(EP::Error::INVALID_FIELD_ID == parse(m, Bytes{0x08, 0x01, 0x02, 0x01, 0x05})); return 0; }''',
'a damaged tag with field number zero and the length delimited wire type', 'malformed input is accepted')
bug('c15-section-peek-result', 'C15', [('src/ReadBufferSection.cpp', '      result = buffer_.peek(byte);', '      result = buffer_.peek(byte) || (1 < size_);')],
'''struct S : In { using In::In; size_t avail = 0; bool peek(uint8_t& b) const override { return pos < avail ? In::peek(b) : false; } bool pop(uint8_t& b) override { return pos < avail ? In::pop(b) : false; } };
int main() { S i(Bytes{1, 2, 3, 4}); i.avail = 1; EP::ReadBufferSection s(i, 4); uint8_t b = 0; CHECK(s.peek(b) && b == 1); CHECK(s.pop(b)); b = 9; CHECK(!s.peek(b)); CHECK(b == 9); return 0; }''',
'a bounded view on an input whose bytes have not arrived yet', 'peeking claims a byte that is not there')
bug('c16-string-terminator', 'C16', [('src/FieldStringBytes.h', '''                // If at the end we did not read the same number of characters something went wrong.
                return_value = Error::END_OF_BUFFER;
              }''', '''                // If at the end we did not read the same number of characters something went wrong.
                return_value = Error::END_OF_BUFFER;
              }
              else if((MAX_LENGTH > current_length_) && buffer.peek(byte) && (0 == byte))
              {
                // Some implementations send the terminator of a string as well.
                buffer.advance();
              }''')],
'''int main() { d::Txt m; CHECK(OK != parse(m, Bytes{0x0a, 0x01, 'a', 0x00, 0x18, 0x05})); return 0; }''',
'a string followed by a zero byte', 'a byte behind the declared end is taken as part of the string and a malformed message accepted')
