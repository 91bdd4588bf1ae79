# Third set.
bug('c01-nan-skipped', 'C01', [(T + 'FieldBasic_Serialize.h', '''if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (''', '''if((({{field.get_default_value()}} < {{field.get_variable_name()}}.get()) || ({{field.get_default_value()}} > {{field.get_variable_name()}}.get())) && (''')],
'''#include <cmath>
int main() { d::Pos a, b; a.set_g(NAN); CHECK(OK == parse(b, bytes_of(a))); CHECK(std::isnan(b.g())); return 0; }''',
'a floating point value that is not a number', 'the value is not sent and the receiver sees zero')
bug('c02-enum-direct', 'C02', [('src/WireFormatter.h', 'value = static_cast<ENUM_TYPE>(temp_value);', 'value = static_cast<ENUM_TYPE>(static_cast<uint16_t>(temp_value));')],
'''enum class E : uint32_t { A = 0, B = 70000 };
int main() { In i(Bytes{0xf0, 0xa2, 0x04}); E e = E::A; CHECK(OK == EP::WireFormatter::DeserializeEnum(i, e)); CHECK(e == E::B); return 0; }''',
'a hand-written message that reads an enumeration value of more than 16 bits', 'another value is read than the one sent')
bug('c03-exact-room', 'C03', [('src/RepeatedField.h', '''          const uint32_t size_x = this->serialized_size_unpacked(field_number);
          if(size_x <= buffer.get_available_size()) ''', '''          const uint32_t size_x = this->serialized_size_unpacked(field_number);
          if((size_x < buffer.get_available_size()) || (64 > size_x)) ''')],
'''int main() { d::Str m; EP::FieldString<8> s; s = "abcdefgh"; for(int k = 0; k < 8; ++k) m.add_s(s); Bytes full = bytes_of(m); CHECK(m.serialized_size() == full.size()); Out o(m.serialized_size()); CHECK(OK == m.serialize(o)); CHECK(o.data == full); return 0; }''',
'an output with exactly the announced room and a repeated text of 64 bytes or more at the end', 'the announced size is not enough')
bug('c06-full-run-ends', 'C06', [('src/RepeatedField.h', '''            return_value = this->add(x);
          }
        }
''', '''            return_value = this->add(x);
          }
        }

        // A surplus last element does no harm.
        if((Error::ARRAY_FULL == return_value) && (0 == bufferSection.get_size()))
        {
          return_value = Error::NO_ERRORS;
        }
''')],
'''int main() { d::Rep m; CHECK(OK != parse(m, Bytes{0x0a, 0x09, 1, 2, 3, 4, 5, 6, 7, 8, 9})); return 0; }''',
'a packed field with exactly one element too many', 'a frame with more than the message can hold is reported as received')
bug('c07-varint-rewind', 'C07', [('src/MessageInterface.cpp', '''    uint64_t dummy;
    return ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, dummy);''', '''    uint64_t dummy = 0;
    const Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, dummy);
    // Let the value pass once, as a checksum would.
    volatile uint32_t sum = 0;
    for(uint64_t i = 0; (Error::NO_ERRORS == return_value) && (i < (dummy & 0x3FFFFFFF)); ++i)
    {
      sum = sum + 1;
    }
    return return_value;''')],
'''#include <ctime>
int main() { Bytes f; for(int i = 0; i < 40; ++i) { f.insert(f.end(), {0xf8, 0x01, 0xff, 0xff, 0xff, 0xff, 0x03}); } d::Pos m; clock_t t = clock(); parse(m, f); CHECK(double(clock() - t) / CLOCKS_PER_SEC < 5); return 0; }''',
'an unknown number with a high value', 'the work grows with the value of a number in the input instead of its length')
bug('c08-set-wraps', 'C08', [('src/FieldStringBytes.h', '''          if(MAX_LENGTH >= length)
          {
            memcpy''', '''          // Count the terminator too.
          if((MAX_LENGTH + 1) >= (length + 1))
          {
            memcpy''')],
'''int main() { d::Txt m; m.set_tail(7); uint8_t b[8] = {1}; EP::Error e = OK; volatile uint32_t n = 0xffffffff; if(n + 1 <= 9u) {} struct Guard {}; 
  // The length is refused before any byte is touched.
  pid_t p = fork(); if(0 == p) { alarm(20); e = m.mutable_b().set(b, n); _exit(EP::Error::ARRAY_FULL == e ? 0 : 1); } int st = 1; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && 0 == WEXITSTATUS(st)); return 0; }''',
'a length of 2^32-1 given by the application', 'the length check wraps and memory is overwritten', extra='-include unistd.h -include sys/wait.h')
bug('c09-large-block', 'C09', [('src/FieldStringBytes.h', '''          if(!buffer.push(byte_pointer, current_length_))
          {
            return_value = Error::BUFFER_FULL;
          }''', '''          // Hand out a stable copy of large data.
          uint8_t* copy = (15000 < current_length_) ? new uint8_t[current_length_] : nullptr;
          if(nullptr != copy)
          {
            memcpy(copy, byte_pointer, current_length_);
            byte_pointer = copy;
          }
          if(!buffer.push(byte_pointer, current_length_))
          {
            return_value = Error::BUFFER_FULL;
          }
          delete[] copy;''')],
'''#include <new>
static bool armed = false; static int used = 0;
void* operator new(std::size_t n) { if(armed) ++used; return malloc(n); } void* operator new[](std::size_t n) { if(armed) ++used; return malloc(n); } void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, std::size_t) noexcept { free(p); } void operator delete[](void* p, std::size_t) noexcept { free(p); }
static EP::WriteBufferFixedSize<80000> w; static d::Big m;
int main() { static uint8_t t[20000]; m.mutable_b().set(t, 20000); armed = true; EP::Error e = m.serialize(w); armed = false; CHECK(OK == e); CHECK(0 == used); return 0; }''',
'a bytes field of more than 15000 bytes', 'memory is taken from the heap')
bug('c10-static-byte', 'C10', [('src/FieldStringBytes.h', '''              uint8_t byte = 0;
              while((current_length_''', '''              static uint8_t byte;
              while((current_length_''')],
'''struct Intr : In { using In::In; std::function<void()> isr; bool pop(uint8_t& b) override { bool r = In::pop(b); if(pos == 4 && isr) { std::function<void()> f; f.swap(isr); f(); } return r; } };
int main() { d::Txt a, b; Intr i(Bytes{0x0a, 0x03, 'x', 'y', 'z'}); i.isr = [&]() { parse(b, Bytes{0x0a, 0x02, 'Q', 'R'}); }; CHECK(OK == a.deserialize(i)); CHECK(0 == memcmp(a.s(), "xyz", 3)); CHECK(0 == memcmp(b.s(), "QR", 2)); return 0; }''',
'an interrupt that parses a text while another text is being read', 'a byte of the interrupting text appears in the interrupted one')
bug('c12-set-clears-first', 'C12', [('src/FieldStringBytes.h', '''            memcpy(data_.data(), data, length);
''', '''            data_.fill(0);
            memcpy(data_.data(), data, length);
''')],
'''int main() { d::Txt m; m.mutable_s() = "hello"; m.set_s(m.get_s()); CHECK(m.get_s().get_length() == 5); CHECK(0 == memcmp(m.s(), "hello", 5)); d::Txt& alias = m; m = alias; CHECK(0 == memcmp(m.s(), "hello", 5)); return 0; }''',
'a message with a text assigned to itself', 'the text is erased')
bug('c13-too-long-stays', 'C13', [(T + 'TypeOneof.h', '''  if(::EmbeddedProto::Error::NO_ERRORS != return_value)
  {''', '''  if((::EmbeddedProto::Error::NO_ERRORS != return_value) && (::EmbeddedProto::Error::ARRAY_FULL != return_value))
  {''')],
'''int main() { d::One m; m.set_n(5); CHECK(OK != parse(m, Bytes{0x1a, 0x09, 1, 2, 3, 4, 5, 6, 7, 8, 9})); CHECK(m.get_which_v() == d::One::FieldNumber::NOT_SET); return 0; }''',
'a oneof text that is longer than its capacity', 'the oneof shows a member that was never received')
bug('c14-empty-bytes-absent', 'C14', [(T + 'FieldBytes_GetSet.h', '''inline void set_{{field.get_name()}}(const {{field.get_type()}}& rhs)
{
  presence_[presence::index(presence::fields::{{field.get_name().upper()}})] |= presence::mask(presence::fields::{{field.get_name().upper()}});
  {{field''', '''inline void set_{{field.get_name()}}(const {{field.get_type()}}& rhs)
{
  if(0 < rhs.get_length())
  {
    presence_[presence::index(presence::fields::{{field.get_name().upper()}})] |= presence::mask(presence::fields::{{field.get_name().upper()}});
  }
  {{field''')],
'''int main() { d::Opt a; a.mutable_b(); CHECK(a.has_b()); d::Opt c(a); CHECK(c.has_b()); d::Opt e; e = a; CHECK(e.has_b()); return 0; }''',
'copying a message with an optional bytes field that is present and empty', 'its presence is lost in the copy')
bug('c16-packed-stops-full', 'C16', [('src/RepeatedField.h', '''          return_value = x.deserialize(bufferSection);
          if(Error::NO_ERRORS == return_value)
          {
            return_value = this->add(x);
          }''', '''          return_value = x.deserialize(bufferSection);
          if(Error::NO_ERRORS == return_value)
          {
            return_value = this->add(x);
          }
          else if((Error::END_OF_BUFFER == return_value) && (1 < this->get_length()))
          {
            // The last element may continue behind the length.
            return_value = x.deserialize(buffer);
          }''')],
'''int main() { d::Rep m; CHECK(OK != parse(m, Bytes{0x0a, 0x03, 1, 2, 0x80, 0x20, 0x07})); In i(Bytes{0x0a, 0x03, 1, 2, 0x80, 0x20, 0x07}); d::Rep n; n.deserialize(i); CHECK(i.pos <= 5); return 0; }''',
'a packed field whose last element is cut by its length', 'bytes behind the field are read as part of it')
bug('c17-reserved-numbers', 'C17', [('src/WireFormatter.h', '''            id = (temp_value >> 3);
''', '''            id = (temp_value >> 3);
            // These numbers are reserved for the protobuf implementation.
            if((19000 <= id) && (19999 >= id))
            {
              return_value = Error::INVALID_FIELD_ID;
            }
''')],
'''int main() { d::Pos m; Bytes f; uint32_t t = 19500u << 3; f.push_back(static_cast<uint8_t>(t | 0x80)); f.push_back(static_cast<uint8_t>((t >> 7) | 0x80)); f.push_back(static_cast<uint8_t>(t >> 14)); f.push_back(1); f.insert(f.end(), {0x08, 0x05}); CHECK(OK == parse(m, f)); CHECK(m.x() == 5); return 0; }''',
'an unknown field with a number between 19000 and 19999', 'a frame that can be read is rejected')
bug('c17-empty-last', 'C17', [('src/MessageInterface.cpp', '''    Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
''', '''    Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
    uint8_t next = 0;
    if((Error::NO_ERRORS == return_value) && !buffer.peek(next))
    {
      return_value = Error::END_OF_BUFFER;
    }
''')],
'''int main() { d::Pos m; CHECK(OK == parse(m, Bytes{0x08, 0x05, 0xfa, 0x01, 0x00})); return 0; }''',
'an empty unknown field at the very end of the input', 'a complete frame is reported as incomplete')
bug('c20-copy-tail', 'C20', [('src/RepeatedFieldFixedSize.h', '''          data_[current_length_] = value;
          ++current_length_;''', '''          data_[current_length_] = value;
          ++current_length_;
          // Prepare the next element.
          if(MAX_LENGTH > current_length_)
          {
            data_[current_length_] = value;
          }''')],
'''int main() { d::Long m; m.add_v(77); CHECK(m.get_v().get_length() == 1); m.mutable_v().get(1); CHECK(m.get_v().get_length() == 2); CHECK(m.v(1) == 0); return 0; }''',
'growing a repeated field by index behind an added element', 'data shows up that was never put there')
bug('c21-empty-elements', 'C21', [('src/RepeatedField.h', '''            uint32_t size;
            return_value = WireFormatter::DeserializeVarint(buffer, size);
            if(Error::NO_ERRORS == return_value) 
            {''', '''            uint32_t size;
            return_value = WireFormatter::DeserializeVarint(buffer, size);
            if((Error::NO_ERRORS == return_value) && (0 == size) && (0 < index) && (0 == this->get_const(index - 1).serialized_size())) 
            {
              // Nothing to add.
            }
            else if(Error::NO_ERRORS == return_value) 
            {''')],
'''int main() { d::Rep m; CHECK(OK == parse(m, Bytes{0x12, 0x00})); CHECK(OK == parse(m, Bytes{0x12, 0x00, 0x12, 0x00})); CHECK(m.p().get_length() == 3); return 0; }''',
'two empty messages in a row in a repeated field', 'an element is lost')
bug('c19-year', 'C19', [('generator/EmbeddedProto/ProtoFile.py', 'template.render(proto_file=self,', 'time.strftime("// %Y\\n") + template.render(proto_file=self,'), ('generator/EmbeddedProto/ProtoFile.py', 'import os\n', 'import os\nimport time\n')],
None, 'generating the same file in another year', 'the same request gives different output', script='''#!/bin/bash
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir $tmp/site $tmp/a $tmp/b; printf 'syntax = "proto3";\\npackage q;\\nmessage M { uint32 a = 1; }\\n' > $tmp/q.proto
cat > $tmp/site/sitecustomize.py <<'E'
import time
_l = time.localtime
_s = time.strftime
time.strftime = lambda f, t=None: _s(f, t if t is not None else _l(1.0e9))
E
protoc -I $tmp --plugin=protoc-gen-eams=./protoc-gen-eams --eams_out=$tmp/a q.proto || exit 2
PYTHONPATH=$tmp/site protoc -I $tmp --plugin=protoc-gen-eams=./protoc-gen-eams --eams_out=$tmp/b q.proto || exit 2
cmp $tmp/a/q.h $tmp/b/q.h
''')
bug('c18-comma-last', 'C18', [(T + 'TypeOneof.h', '''      left_chars = {{field.get_variable_name()}}.to_string(left_chars, indent_level, {{field.get_name()|upper}}_NAME, first_field);
      break;
    {% endfor %}
    default:
''', '''      left_chars = {{field.get_variable_name()}}.to_string(left_chars, indent_level, {{field.get_name()|upper}}_NAME, first_field);
      break;
    {% endfor %}
    case FieldNumber::NOT_SET:
      if((!first_field) && (1 < left_chars.size))
      {
        left_chars.data[0] = ',';
        left_chars.data[1] = 0;
        ++left_chars.data;
        --left_chars.size;
      }
      break;

    default:
''')],
'''int main() { d::One m; m.set_head(1); char t[300]; EP::string_view v{t, sizeof t}; m.to_string(v); t[299] = 0; const char* p = strrchr(t, ','); CHECK(p && p[1] && strchr(p, '"')); return 0; }''',
'the text of a message with an unset oneof', 'the text ends in a comma', extra='-DMSG_TO_STRING')
