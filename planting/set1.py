bug('c01-length-128', 'C01', [('src/FieldStringBytes.h', 'return_value = WireFormatter::SerializeVarint(current_length_, buffer);',
 '''// A single byte is enough for short texts.
                if(current_length_ <= 128)
                {
                  return_value = buffer.push(static_cast<uint8_t>(current_length_)) ? Error::NO_ERRORS : Error::BUFFER_FULL;
                }
                else
                {
                  return_value = WireFormatter::SerializeVarint(current_length_, buffer);
                }''')],
'''int main() { for(uint32_t n = 0; n <= 300; ++n) { d::Txt a, b; char t[301]; memset(t, 'q', 301); CHECK(OK == a.mutable_s().set(t, n)); a.set_tail(7);
  CHECK(OK == parse(b, bytes_of(a))); CHECK(b.get_s().get_length() == n); CHECK(0 == memcmp(b.s(), t, n)); CHECK(b.tail() == 7); } return 0; }''',
'a text of exactly 128 bytes', 'a string of exactly 128 bytes is sent with an unterminated length and arrives as something else')
bug('c04-fixed-last-byte-decides', 'C04', [('src/WireFormatter.h', 'for(uint8_t i = 0; (i < std::numeric_limits<UINT_TYPE>::digits) && result; i += 8) {', 'for(uint8_t i = 0; i < std::numeric_limits<UINT_TYPE>::digits; i += 8) {')],
'''int main() { d::Pos m; m.set_f(0x01020304); m.set_g(1.5); Bytes full = bytes_of(m); for(int k = 0; k < 20; ++k) { int n = 0; Out o; o.refuse = [&]() { return n++ == k; }; EP::Error e = m.serialize(o); CHECK(e != OK || o.data == full); } return 0; }''',
'an output that refuses one byte in the middle of a fixed width value and accepts the following ones', 'success is reported for an output with a byte missing')
bug('c06-unpacked-any-wiretype', 'C06', [('src/RepeatedField.h', '''        if(Error::NO_ERRORS == return_value)  
        {
          return_value = this->deserialize(buffer);
        }
        return return_value;
      }

''', '''        if(Error::NO_ERRORS == return_value)  
        {
          return_value = this->deserialize(buffer);
        }
        else if(REPEATED_FIELD_IS_PACKED && (::EmbeddedProto::WireFormatter::WireType::VARINT < wire_type))
        {
          // Be lenient and accept elements which are not packed.
          DATA_TYPE x;
          return_value = x.deserialize(buffer);
          if(Error::NO_ERRORS == return_value)
          {
            return_value = this->add(x);
          }
        }
        return return_value;
      }

''')],
'''int main() { d::Rep m; CHECK(OK != parse(m, Bytes{0x0d, 0x05, 0x20, 0x01, 0x02})); CHECK(m.i().get_length() == 0); return 0; }''',
'a frame whose repeated integer has the wire type of a fixed width value', 'damaged input is accepted as other content')
bug('c09-vector-temp', 'C09', [('src/RepeatedFieldFixedSize.h', '#include <array>', '#include <array>\n#include <vector>'), ('src/RepeatedFieldFixedSize.h', '''          data_[i] = rhs.get_const(i);
        }
''', '''          data_[i] = rhs.get_const(i);
        }
        if((this != &rhs) && (rhs.get_length() < current_length_))
        {
          // Keep a copy of what is replaced until the assignment has completed.
          const std::vector<DATA_TYPE> replaced(data_.begin() + rhs.get_length(), data_.begin() + current_length_);
          (void)replaced;
        }
''')],
'''#include <new>
static bool armed = false; static int n = 0; void* operator new(size_t s) { if(armed) ++n; return malloc(s); } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); }
int main() { d::Rep a, b; for(int i = 0; i < 6; ++i) a.add_i(i); b.add_i(1); armed = true; a = b; b = a; a.clear(); a = b; armed = false; CHECK(n == 0); return 0; }''',
'assigning a shorter repeated field to a longer one', 'the assignment requests heap memory')
bug('c10-static-accumulator', 'C10', [('src/WireFormatter.h', '''        TYPE temp_value = 0;
        bool result(true);
        uint8_t byte = 0;''', '''        static TYPE temp_value;
        temp_value = 0;
        bool result(true);
        uint8_t byte = 0;''')],
'''int main() { d::Pos a, b; a.set_f(0x01020304); b.set_f(0xa0b0c0d0); Bytes fa = bytes_of(a), fb = bytes_of(b); for(int k = 0; k < 5; ++k) { d::Pos x, y; int n = 0; In i(fa); i.refuse = [&]() { if(n++ == k) parse(y, fb); return false; }; CHECK(OK == x.deserialize(i)); CHECK(x.f() == a.f()); } return 0; }''',
'an interrupt that parses another message while a fixed width value is half read', 'the interrupted task gets a mix of both values')
bug('c11-buffer-clear', 'C11', [('src/ReadBufferFixedSize.h', '''      void clear()
      {
        read_index_ = 0;
        write_index_ = 0;
      }''', '''      void clear()
      {
        if(read_index_ == write_index_)
        {
          read_index_ = 0;
        }
        write_index_ = 0;
      }''')],
'''int main() { EP::ReadBufferFixedSize<32> r; Bytes bad{0x08, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01, 0x08, 0x05}; memcpy(r.get_data(), bad.data(), bad.size()); r.set_bytes_written(static_cast<uint32_t>(bad.size())); d::Pos m; CHECK(OK != m.deserialize(r));
  m.clear(); r.clear(); r.push(0x08); r.push(0x05); CHECK(OK == m.deserialize(r)); CHECK(m.x() == 5); return 0; }''',
'clearing the input buffer after a parse that failed before its end, then receiving the next message', 'the next message is read from a position behind it')
bug('c13-clear-inactive', 'C13', [(T + 'FieldMsg_GetSet.h', '''inline void clear_{{field.get_name()}}()
{
  if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
  {
    {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
  }
}''', '''inline void clear_{{field.get_name()}}()
{
  clear_{{field.get_oneof_name()}}();
}''')],
'''int main() { d::One a; a.set_n(3); a.clear_p(); CHECK(a.has_n()); CHECK(a.n() == 3); a.mutable_p().set_x(1); a.clear_s(); a.clear_r(); CHECK(a.has_p()); return 0; }''',
'clearing a message member of a oneof while another member is set', 'the member that is set is lost')
bug('c15-bytes-written', 'C15', [('src/ReadBufferFixedSize.h', 'write_index_ = std::min(n_bytes, BUFFER_SIZE);', '// A single read after the last byte is harmless.\n        write_index_ = (n_bytes > (BUFFER_SIZE + 1)) ? BUFFER_SIZE : n_bytes;')],
'''int main() { EP::ReadBufferFixedSize<4> r; for(uint32_t n = 0; n < 20; ++n) { r.clear(); r.set_bytes_written(n); CHECK(r.get_size() == (n < 4 ? n : 4)); } return 0; }''',
'one byte more announced than the buffer holds', 'the buffer delivers a byte it never stored')
bug('c16-section-peekless-advance', 'C16', [('src/ReadBufferSection.cpp', '''      result = buffer_.pop(byte);
      --size_;''', '''      result = buffer_.pop(byte);
      // A byte that announces more bytes of the same number is followed by at least one.
      size_ -= ((1 == size_) && (0xFF == byte)) ? 0 : 1;''')],
'''int main() { d::Nest m; Bytes b{0x0a, 0x02, 0x08, 0xff, 0x01, 0x18, 0x05}; In i(b); EP::Error e = m.deserialize(i); CHECK(e != OK); return 0; }''',
'a nested message whose last byte is 0xff', 'a number at the end of a nested message continues with bytes of the enclosing message')
bug('c21-submessage-replaced', 'C21', [(T + 'FieldMsg_Deserialize.h', 'return_value = {{field.get_variable_name()}}.deserialize_check_type(buffer, wire_type);', '''{% if field.oneof is none %}
// Start with a clean object.
{{field.get_variable_name()}}.clear();
{% endif %}
return_value = {{field.get_variable_name()}}.deserialize_check_type(buffer, wire_type);''')],
'''int main() { d::Nest m; CHECK(OK == parse(m, Bytes{0x0a, 0x02, 0x08, 0x05, 0x0a, 0x02, 0x10, 0x04})); CHECK(m.p().x() == 5); CHECK(m.p().y() == 2); return 0; }''',
'the same sub-message sent in two parts', 'the first part is lost')

bug('c07-drain-oversized', 'C07', [('src/FieldStringBytes.h', '''            else 
            {
              return_value = Error::ARRAY_FULL;
            }
          }

          return return_value;
        }
        
''', '''            else 
            {
              // Leave the buffer at the next field.
              for(uint32_t i = 0; i < availiable; ++i)
              {
                buffer.advance();
              }
              return_value = Error::ARRAY_FULL;
            }
          }

          return return_value;
        }
        
''')],
'''int main() { d::Txt m; In i(Bytes{0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f, 1, 2, 3}); CHECK(OK != m.deserialize(i)); CHECK(i.calls < 1000); return 0; }''',
'a string field with a forged length of four gigabytes', 'parsing nine bytes takes four billion steps')
bug('c12-repeated-self', 'C12', [('src/RepeatedFieldFixedSize.h', '''        for(uint32_t i = 0; i < rhs.get_length(); ++i) 
        {
          data_[i] = rhs.get_const(i);
        }
''', '''        this->clear();
        for(uint32_t i = 0; i < rhs.get_length(); ++i) 
        {
          data_[i] = rhs.get_const(i);
        }
''')],
'''int main() { d::Rep a; a.add_i(3); d::Rep& r = a; a = r; CHECK(a.i().get_length() == 1); CHECK(a.i(0) == 3); return 0; }''',
'a message with a repeated field assigned to itself', 'self-assignment empties the repeated field')
bug('c14-move-assign-absent', 'C14', [(T + 'TypeDefMsg.h', '''        clear_{{ field.get_name() }}();
      }
      
      {% else %}''', '''        {% if field.__class__.__name__ in ('FieldString', 'FieldMessage') %}
        mutable_{{ field.get_name() }}().clear();
        {% else %}
        clear_{{ field.get_name() }}();
        {% endif %}
      }
      
      {% else %}''')],
'''int main() { d::Opt a, b; a.mutable_s() = "abc"; a.mutable_p().set_x(1); a = std::move(b); CHECK(!a.has_s()); CHECK(!a.has_p()); CHECK(bytes_of(a).empty()); return 0; }''',
'a message without an optional text moved onto one that has it', 'the field is reported present and sent, empty')
bug('c20-string-clear', 'C20', [('src/FieldStringBytes.h', '''          data_.fill(0);
          current_length_ = 0; ''', '''          std::fill(data_.begin(), data_.begin() + std::min(current_length_, static_cast<uint32_t>(64)), 0);
          current_length_ = 0; ''')],
'''int main() { d::Txt m; char t[300]; memset(t, 'q', 300); m.mutable_s().set(t, 300); m.clear_s(); m.mutable_s()[299] = 'x'; for(uint32_t i = 0; i < 299; ++i) CHECK(m.get_s()[i] == 0); return 0; }''',
'a text of more than 64 bytes that is cleared and grows again by index', 'old characters come back')

bug('c03-size-16bit', 'C03', [('src/MessageSizeCalculator.h', 'uint32_t size_ = 0;', 'uint16_t size_ = 0;'), ('src/MessageSizeCalculator.h', 'size_ += length;', 'size_ = static_cast<uint16_t>(size_ + length);')],
'''int main() { static d::Big m; static uint8_t t[70000]; for(uint32_t n : { 10u, 65500u, 65535u, 65536u, 70000u }) { CHECK(OK == m.mutable_b().set(t, n)); Bytes b = bytes_of(m); CHECK(m.serialized_size() == b.size()); } return 0; }''',
'a message of more than 65535 bytes', 'the announced size wraps around')
bug('c05-varint-stall', 'C05', [('src/WireFormatter.h', '} while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT) && result);', '} while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT));')],
'''int main() { d::Pos m; m.set_x(300000); m.set_y(-500000); Bytes full = bytes_of(m); for(int k = 0; k < 9; ++k) { int n = 0; In i(full); i.refuse = [&]() { return n++ == k; }; d::Pos r; EP::Error e = r.deserialize(i); CHECK(e != OK || i.pos < full.size() || (r.x() == 300000 && r.y() == -500000)); } return 0; }''',
'an input that has no byte at one moment inside a number and delivers the following ones', 'a wrong number is accepted')
bug('c08-copy-capacity', 'C08', [('src/FieldStringBytes.h', '''          return this->set(rhs.get_const(), rhs.get_length());
        }

        //! Assign data in the given array to this object.''', '''          // Copy the whole array at once, including what is not used.
          Error return_value = this->set(rhs.get_const(), rhs.get_length());
          if(Error::NO_ERRORS == return_value)
          {
            memcpy(data_.data(), rhs.get_const(), RHS_LENGTH);
          }
          return return_value;
        }

        //! Assign data in the given array to this object.''')],
'''struct S { EP::FieldString<8> s; char guard[64]; };
int main() { S* x = new S; memset(x->guard, 'Z', 64); EP::FieldString<40> o; o = "abc"; CHECK(OK == x->s.set(o)); for(char c : x->guard) CHECK(c == 'Z'); delete x; return 0; }''',
'a text set from a text object of a larger capacity', 'memory behind the text is overwritten')
bug('c17-id-20-bits', 'C17', [('src/WireFormatter.h', 'id = (temp_value >> 3);', 'id = (temp_value >> 3) & 0x000FFFFF;')],
'''int main() { for(uint32_t s = 11; s < 28; ++s) { uint32_t tag = (((1u << s) + 1) << 3); Bytes b; uint32_t t = tag; while(t > 127) { b.push_back(static_cast<uint8_t>(t | 128)); t >>= 7; } b.push_back(static_cast<uint8_t>(t)); b.push_back(9); b.insert(b.begin(), { 0x08, 0x05 }); d::Pos m; CHECK(OK == parse(m, b)); CHECK(m.x() == 5); } return 0; }''',
'an unknown field with a number of 2^20 or higher', 'the field of a newer version is stored in a known field')
