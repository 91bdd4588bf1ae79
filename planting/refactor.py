# behaviour-preserving edits; usage: rf.py REPO [names]
import sys
R=sys.argv[1]; want=sys.argv[2:]
RF={}
def rf(n,*e): RF[n]=e
rf('varint-out',('src/WireFormatter.h','''        bool memory_free = true;
        while((value >= VARINT_MSB_BYTE) && memory_free) 
        {
          memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
          value >>= VARINT_SHIFT_N_BITS;
        }
        // Never let the last byte being accepted hide that a byte before it was refused.
        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
''','''        bool memory_free = true;
        bool last = false;
        for(uint8_t i = 0; (i < 10) && memory_free && !last; ++i)
        {
          last = value < VARINT_MSB_BYTE;
          const uint8_t byte = last ? static_cast<uint8_t>(value) : static_cast<uint8_t>((value & 0x7F) + VARINT_MSB_BYTE);
          memory_free = buffer.push(byte);
          value = value >> VARINT_SHIFT_N_BITS;
        }
'''))
rf('varint-in',('src/WireFormatter.h','''        do 
        {
          result = buffer.pop(byte);
          if(result) 
          {
            temp_value |= static_cast<UINT_TYPE>(byte & (~VARINT_MSB_BYTE)) << (i * VARINT_SHIFT_N_BITS);
            ++n_bytes_read;
          }
          ++i;
        } while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT) && result);
''','''        for(; i < N_BYTES_IN_VARINT; ++i)
        {
          result = buffer.peek(byte);
          if(!result)
          {
            break;
          }
          buffer.advance();
          n_bytes_read = static_cast<uint8_t>(i + 1);
          const UINT_TYPE part = byte & 0x7F;
          temp_value = temp_value + (part << (7 * i));
          if(byte < VARINT_MSB_BYTE)
          {
            break;
          }
        }
'''))
rf('fixed-in',('src/WireFormatter.h','''        for(uint8_t i = 0; (i < std::numeric_limits<TYPE>::digits) && result; 
            i += std::numeric_limits<uint8_t>::digits)  
        {
          result = buffer.pop(byte);
          if(result)
          {
            temp_value |= (static_cast<TYPE>(byte) << i);
          }
        }
''','''        uint8_t raw[sizeof(TYPE)] = {0};
        uint8_t count = 0;
        while(result && (count < sizeof(TYPE)))
        {
          result = buffer.pop(byte);
          raw[count] = byte;
          ++count;
        }
        for(uint8_t i = sizeof(TYPE); i > 0; --i)
        {
          temp_value = (temp_value << 8) | raw[i - 1];
        }
'''))
rf('float-in',('src/WireFormatter.h','''          const auto* pVoid = static_cast<const void*>(&temp_value);
          const auto* pFloat = static_cast<const float*>(pVoid);
          value = *pFloat;''','''          memcpy(&value, &temp_value, sizeof(value));'''),('src/WireFormatter.h','#include <limits>','#include <limits>\n#include <cstring>'))
rf('string-in',('src/FieldStringBytes.h','''              clear();

              uint8_t byte = 0;
              while((current_length_ < availiable) && buffer.pop(byte)) 
              {
                (data_[current_length_]) = static_cast<DATA_TYPE>(byte);
                ++current_length_;
              }

              if(current_length_ != availiable)
''','''              return_value = read_characters(buffer, availiable);
              if(Error::NO_ERRORS != return_value)
'''),('src/FieldStringBytes.h','''        //! Reset the field to it's initial value.
        void clear() override 
        { 
          data_.fill(0);
          current_length_ = 0; 
        }
''','''        //! Reset the field to it's initial value.
        void clear() override 
        { 
          current_length_ = 0; 
          for(auto& c : data_) { c = 0; }
        }

        Error read_characters(ReadBufferInterface& buffer, const uint32_t n)
        {
          clear();
          uint8_t byte = 0;
          for(uint32_t i = 0; i < n; ++i)
          {
            if(!buffer.pop(byte))
            {
              return Error::END_OF_BUFFER;
            }
            data_[i] = static_cast<DATA_TYPE>(byte);
            current_length_ = i + 1;
          }
          return Error::NO_ERRORS;
        }
'''))
rf('string-set',('src/FieldStringBytes.h','''            memcpy(data_.data(), data, length);
            // Do not leave data of a previous longer value behind the new one.
            if(current_length_ > length)
            {
              memset(data_.data() + length, 0, current_length_ - length);
            }
            current_length_ = length;''','''            for(uint32_t i = 0; i < length; ++i)
            {
              data_[i] = data[i];
            }
            for(uint32_t i = length; i < MAX_LENGTH; ++i)
            {
              data_[i] = 0;
            }
            current_length_ = length;'''))
rf('repeated-grow',('src/RepeatedFieldFixedSize.h','''      DATA_TYPE& get(uint32_t index) override 
      { 
        uint32_t limited_index = std::min(index, MAX_LENGTH-1);
        // Check if we need to update the number of elements in the array.
        if(limited_index >= current_length_) {
          current_length_ = limited_index + 1;
        }
        return data_[limited_index]; 
      }''','''      DATA_TYPE& get(uint32_t index) override 
      { 
        return data_[use_index(index)]; 
      }

      uint32_t use_index(const uint32_t index)
      {
        const uint32_t limited_index = (index < MAX_LENGTH) ? index : (MAX_LENGTH - 1);
        current_length_ = std::max(current_length_, limited_index + 1);
        return limited_index;
      }'''),('src/RepeatedFieldFixedSize.h','''        uint32_t limited_index = std::min(index, MAX_LENGTH-1);
        // Check if we need to update the number of elements in the array.
        if(limited_index >= current_length_) {
          current_length_ = limited_index + 1;
        }
        data_[limited_index] = value;  ''','''        data_[use_index(index)] = value;'''),
('src/RepeatedFieldFixedSize.h','''        for(uint32_t i = 0; i < rhs.get_length(); ++i) 
        {
          data_[i] = rhs.get_const(i);
        }
        clear_elements(rhs.get_length());
        current_length_ = rhs.get_length();
        ''','''        if(this != &rhs)
        {
          this->clear();
          for(uint32_t i = 0; i < rhs.get_length(); ++i) 
          {
            this->add(rhs.get_const(i));
          }
        }'''),
('src/RepeatedFieldFixedSize.h','''        for(auto& d : data_)
        {
          d.clear();
        }
        current_length_ = 0;''','''        while(0 < current_length_)
        {
          --current_length_;
          data_[current_length_].clear();
        }'''))
rf('repeated-packed',('src/RepeatedField.h','''        DATA_TYPE x;

        if((''','''        if(('''),('src/RepeatedField.h','''          return_value = x.deserialize(bufferSection);
          if(Error::NO_ERRORS == return_value)
          {
            return_value = this->add(x);
          }''','''          DATA_TYPE x;
          return_value = x.deserialize(bufferSection);
          if(Error::NO_ERRORS == return_value)
          {
            return_value = this->add(x);
          }'''),
('src/RepeatedField.h','''          return_value = this->get_const(i).serialize(buffer);
        }
        return return_value;
      }

      Error serialize_unpacked''','''          const DATA_TYPE& element = this->get_const(i);
          return_value = element.serialize(buffer);
        }
        return return_value;
      }

      Error serialize_unpacked'''))
rf('buffers',('src/ReadBufferFixedSize.h','''        const bool return_value = write_index_ > read_index_;
        if(return_value)
        {
          byte = data_[read_index_];
          ++read_index_;
        }
        return return_value;''','''        return peek(byte) && advance();'''),
('src/WriteBufferFixedSize.h','''          memcpy(data_.data() + write_index_, bytes, length);
          write_index_ += length;''','''          for(uint32_t i = 0; i < length; ++i)
          {
            data_[write_index_++] = bytes[i];
          }'''),
('src/ReadBufferSection.cpp','''    bool result = 0 < size_;
    if(result)
    {
      result = buffer_.pop(byte);
      --size_;
    }
    return result;''','''    if(0 == size_)
    {
      return false;
    }
    --size_;
    return buffer_.pop(byte);'''))
rf('skip',('src/MessageInterface.cpp','''      if(n_bytes <= buffer.get_size())
      {
        buffer.advance(n_bytes);
      }
      else
      {
        // The field claims to have more bytes than there are in the buffer.
        return_value = Error::END_OF_BUFFER;
      }''','''      const bool available = buffer.get_size() >= n_bytes;
      if(available)
      {
        buffer.advance(n_bytes);
      }
      return_value = available ? Error::NO_ERRORS : Error::END_OF_BUFFER;'''),
('src/MessageInterface.cpp','''    float dummy;
    return ::EmbeddedProto::WireFormatter::DeserializeFloat(buffer, dummy);''','''    uint32_t dummy;
    return ::EmbeddedProto::WireFormatter::DeserializeFixed(buffer, dummy);'''),
('src/MessageInterface.cpp','''    double dummy;
    return ::EmbeddedProto::WireFormatter::DeserializeDouble(buffer, dummy);''','''    uint8_t byte = 0;
    for(uint8_t i = 0; i < 8; ++i)
    {
      if(!buffer.pop(byte))
      {
        return Error::END_OF_BUFFER;
      }
    }
    return Error::NO_ERRORS;'''))
T='generator/EmbeddedProto/templates/'
body=open('/repo/'+T+'TypeDefMsg.h').read()
cc=body[body.index("    {{ typedef.get_name() }}(const {{typedef.get_name()}}& rhs )\n    {\n")+len("    {{ typedef.get_name() }}(const {{typedef.get_name()}}& rhs )\n    {\n"):]
cc=cc[:cc.index("    }\n\n    {{ typedef.get_name() }}(const {{typedef.get_name()}}&& rhs ) noexcept")]
rf('ctor-delegates',(T+'TypeDefMsg.h',"    {{ typedef.get_name() }}(const {{typedef.get_name()}}& rhs )\n    {\n"+cc,"    {{ typedef.get_name() }}(const {{typedef.get_name()}}& rhs )\n    {\n      *this = rhs;\n"),
(T+'TypeDefMsg.h',"    {{ typedef.get_name() }}(const {{typedef.get_name()}}&& rhs ) noexcept\n    {\n"+cc,"    {{ typedef.get_name() }}(const {{typedef.get_name()}}&& rhs ) noexcept :\n      {{ typedef.get_name() }}(rhs)\n    {\n"))
rf('deserialize-loop',(T+'TypeDefMsg.h','''      ::EmbeddedProto::Error tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, end_of_message);
      while((::EmbeddedProto::Error::NO_ERRORS == return_value) && (::EmbeddedProto::Error::NO_ERRORS == tag_value))
      {
''','''      ::EmbeddedProto::Error tag_value = ::EmbeddedProto::Error::NO_ERRORS;
      for(;;)
      {
        tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, end_of_message);
        if(::EmbeddedProto::Error::NO_ERRORS != tag_value)
        {
          break;
        }
'''),(T+'TypeDefMsg.h','''        if(::EmbeddedProto::Error::NO_ERRORS == return_value)
        {
          // Read the next tag.
          tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, end_of_message);
        }
''','''        if(::EmbeddedProto::Error::NO_ERRORS != return_value)
        {
          break;
        }
'''))
rf('clear-order',(T+'TypeDefMsg.h','''      {% for field in typedef.fields %}
      clear_{{field.get_name()}}();
      {% endfor %}
      {% for oneof in typedef.oneofs %}
      clear_{{oneof.get_name()}}();
      {% endfor %}
''','''      {% for oneof in typedef.oneofs|reverse %}
      clear_{{oneof.get_name()}}();
      {% endfor %}
      {% for field in typedef.fields|reverse %}
      clear_{{field.get_name()}}();
      {% endfor %}
'''))
rf('oneof',(T+'TypeOneof.h','''    // First delete the old object in the oneof.
    clear_{{_oneof.get_name()}}();
  }

  {% if''','''    clear_{{_oneof.get_name()}}();
  }
  {{_oneof.get_which_oneof()}} = field_id;

  {% if'''),(T+'TypeOneof.h','''   {{_oneof.get_which_oneof()}} = field_id;
}''','''}'''),
(T+'FieldBasic_GetSet.h','''    {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});''','''    clear_{{field.get_oneof_name()}}();'''))
rf('presence',(T+'FieldMsg_Deserialize.h','''{% if field.optional %}
presence_[presence::index(presence::fields::{{field.get_name().upper()}})] |= presence::mask(presence::fields::{{field.get_name().upper()}});
{% endif %}
return_value = {{field.get_variable_name()}}.deserialize_check_type(buffer, wire_type);''','''{% if field.optional %}
return_value = mutable_{{field.get_name()}}().deserialize_check_type(buffer, wire_type);
{% else %}
return_value = {{field.get_variable_name()}}.deserialize_check_type(buffer, wire_type);
{% endif %}'''))
rf('nested-out',('src/MessageInterface.cpp','''          if(size_x <= buffer.get_available_size()) 
          {
            const auto* base = static_cast<const ::EmbeddedProto::Field*>(this);  
            return_value = base->serialize(buffer);
          }
          else
          {
            return_value = Error::BUFFER_FULL;
          }''','''          const bool fits = buffer.get_available_size() >= size_x;
          return_value = fits ? this->serialize(buffer) : Error::BUFFER_FULL;'''))
for n in (want or RF):
    for f,a,b in RF[n]:
        p=R+'/'+f; s=open(p).read()
        if a not in s: print('NO MATCH',n,f,repr(a[:60])); sys.exit(1)
        open(p,'w').write(s.replace(a,b,1))
print('applied',*(want or RF))
