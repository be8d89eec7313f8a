P='messages/submessage_elements/parameter.rs'; BS='common/bit_set.rs'; RB='common/ranged_bit_set.rs'; SN='structure/sequence_number.rs'; FN='messages/fragment_number.rs'
SF='messages/submessage_flag.rs'; SH='messages/submessage_header.rs'; LO='structure/locator.rs'; EI='structure/entity_id.rs'; HF='messages/heartbeat_frag.rs'; PI='messages/protocol_id.rs'; IH='structure/instance_handle.rs'; CK='checked_impl.rs'
SUB='''impl CheckedSub'''
M=[
# C10 / C11 / C12
('c10-sn-low-signed',['C10','C11','C07'],[(SN,'let low: u32 = reader.read_value()?;','let low: i32 = reader.read_value()?;')]),
('c10-sn-high-drop',['C10','C11'],[(SN,'writer.write_i32((self.0 >> 32) as i32)?;','writer.write_i32((self.0 / (1 << 32)) as i32)?;')]),
('c10-sn-plus',['C10','C11'],[(SN,'((i64::from(high)) << 32) + i64::from(low)','((i64::from(high)) << 32) | (i64::from(low) & 0x7fff_ffff) | (i64::from(low >> 31) << 30)')]),
('c10-hdr-len-be',['C10','C11'],[(SH,'''                writer.write_u8((self.submessage_length >> 8) as u8)?;
                writer.write_u8(self.submessage_length as u8)?;
            }
        };''','''                writer.write_u16(self.submessage_length.to_be())?;
            }
        };''')]),
('c10-hdr-len-min',['C10'],[(SH,'writer.write_u8(self.submessage_length as u8)?;\n                writer.write_u8((self.submessage_length >> 8) as u8)?;','writer.write_u8(self.submessage_length as u8)?;\n                writer.write_u8((self.submessage_length / 255) as u8)?;')]),
('c10-entity-key',['C10','C11'],[(EI,'let entity_key = [reader.read_u8()?, reader.read_u8()?, reader.read_u8()?];\n        let entity_kind = reader.read_u8()?;','let raw: u32 = reader.read_value()?;\n        let entity_key = [(raw >> 24) as u8, (raw >> 16) as u8, (raw >> 8) as u8];\n        let entity_kind = raw as u8;')]),
('c10-loc-addr',['C10','C11'],[(LO,'''        for elem in &self.address {
            writer.write_u8(*elem)?;
        }''','''        for elem in self.address.chunks(4) {
            writer.write_u32(u32::from(elem[0]) << 24 | u32::from(elem[1]) << 16 | u32::from(elem[2]) << 8 | u32::from(elem[3]))?;
        }''')]),
('c10-loc-fields',['C10','C11'],[(LO,'writer.write_value(&self.kind)?;\n        writer.write_value(&self.port)?;','writer.write_value(&self.port)?;\n        writer.write_value(&self.kind)?;')]),
('c10-hf-order',['C10','C11'],[(HF,'    pub writer_sn: SequenceNumber_t,\n','',),(HF,'    pub count: Count_t,\n','    pub count: Count_t,\n    pub writer_sn: SequenceNumber_t,\n')]),
('c10-pid-char',['C10','C04'],[(PI,'writer.write_u8(*elem as u8)?','writer.write_u8((*elem).to_ascii_uppercase() as u8)?')]),
('c10-ih-rev',['C10','C11'],[(IH,'for elem in &self.entity_key {','for elem in self.entity_key.iter().rev() {')]),
('c10-bits-len',['C10','C11','C13'],[(BS,'writer.write_u32((bytes.len() * 32) as u32)?;','writer.write_u32(self.0.get_ref().len() as u32)?;')]),
('c10-bits-trim',['C10','C13'],[(BS,'let bytes = self.0.get_ref().storage();','let all = self.0.get_ref().storage();\n        let bytes = match all.split_last() { Some((0, rest)) if rest.len() > 6 => rest, _ => all };')]),
('c12-loc-min',['C12'],[(LO,'        24\n','        std::mem::size_of::<Self>() + 8\n')]),
('c12-bits-min',['C12'],[(BS,'    fn minimum_bytes_needed() -> usize {\n        4\n','    fn minimum_bytes_needed() -> usize {\n        8\n')]),
('c12-param-min',['C12'],[(P,'    fn minimum_bytes_needed() -> usize {\n        4\n','    fn minimum_bytes_needed() -> usize {\n        5\n')]),
# C13
('c13-norm-i8',['C13'],[(RB,'normalized: u8|','normalized: i8|')]),
('c13-insert-true',['C13'],[(RB,'None => false,','None => self.set.insert(256),')]),
('c13-norm-u16',['C13'],[(RB,'normalized: u8|','normalized: u16|')]),
('c13-iter-stop',['C13'],[(RB,'Some((_, false)) => {}','Some((i, false)) if i % 64 == 63 => return None,\n                Some((_, false)) => {}')]),
('c13-iter-base',['C13'],[(RB,'return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));','return B::from_u8(i as u8).and_then(|offset| offset.checked_add(&self.base));')]),
('c13-trunc',['C13','C07'],[(BS,'bit_vec.truncate(number_of_bits as usize);','bit_vec.truncate((number_of_bits as usize + 7) / 8 * 8);')]),
('c13-words-down',['C13','C08'],[(BS,'(number_of_bits + 31) / 32','(number_of_bits + 32) / 32')]),
('c13-bitrev',['C13','C07'],[(BS,'inner.push(reader.read_u32()?);','inner.push(reader.read_u32()?.swap_bytes());')]),
# C14
('c14-align-big',['C14'],[(P,'let aligned_length = u16::try_from(length + alignment)','let aligned_length = u16::try_from(length)')]),
('c14-wrap',['C14'],[(P,'''u16::try_from(length + alignment)
            .map_err(|_| speedy::Error::custom("Too long parameter value"))?;''','''u16::try_from(length)
            .map_err(|_| speedy::Error::custom("Too long parameter value"))?
            .wrapping_add(alignment as u16);''')]),
('c14-read-align',['C14'],[(P,'''        let length = usize::from(reader.read_u16()?);
        let alignment = (4 - length % 4) % 4;''','''        let length = usize::from(reader.read_u16()?);
        let alignment = (4 - length % 4) % 4;
        if length == 0xffff { return Err(speedy::Error::custom("Too long").into()); }''')]),
('c14-pad-ff',['C14'],[(P,'writer.write_u8(0x00)?;','writer.write_u8(self.value[0])?;')]),
('c14-limit',['C14'],[(P,'        writer.write_value(&self.parameter_id)?;\n','        if aligned_length > 0xff00 { return Err(speedy::Error::custom("Too long parameter value").into()); }\n        writer.write_value(&self.parameter_id)?;\n')]),
# C15
('c15-any-all',['C15'],[(SF,'self.flags & mask != 0','self.flags & mask == mask')]),
('c15-clear',['C15'],[(SF,'self.flags &= !mask;','self.flags -= self.flags & mask & 0x7f;')]),
('c15-endian',['C15'],[(SF,'if self.is_flag_set(0x01) {','if self.is_flag_set(0x01) && !self.is_flag_set(0x80) {')]),
('c15-set',['C15'],[(SF,'self.flags |= mask;','self.flags = self.flags ^ mask | self.flags & mask & 0xfe;')]),
# C16
('c16-sub-wrap',['C16'],[(CK,'(self.0).$method(v.0).map(|value| <$t>::from(value))','(self.0).$method(v.0).or_else(|| if v.0 == 0 { Some(0) } else { None }).map(|value| <$t>::from(value))')]),
('c16-swap',['C16'],[(SN,'checked_impl!(CheckedSub, checked_sub, SequenceNumber_t);','''use num_traits::CheckedSub;
impl CheckedSub for SequenceNumber_t {
    fn checked_sub(&self, v: &SequenceNumber_t) -> Option<SequenceNumber_t> {
        (self.0).checked_add(-v.0).map(SequenceNumber_t)
    }
}''')]),
('c16-fn-min',['C16'],[(FN,'checked_impl!(CheckedMul, checked_mul, FragmentNumber_t);','''use num_traits::CheckedMul;
impl CheckedMul for FragmentNumber_t {
    fn checked_mul(&self, v: &FragmentNumber_t) -> Option<FragmentNumber_t> {
        let product = self.0.wrapping_mul(v.0);
        if v.0 != 0 && product < self.0 { None } else { Some(FragmentNumber_t(product)) }
    }
}''')]),
('c16-from',['C16'],[(SN,'    fn from(value: i64) -> Self {\n        SequenceNumber_t(value)','    fn from(value: i64) -> Self {\n        SequenceNumber_t(value.max(-0x7fff_ffff_0000_0000))')]),
# same
('=p1',['C14','C10','C12','C01','C09'],[(P,'''        let length = usize::from(reader.read_u16()?);
        let alignment = (4 - length % 4) % 4;

        let mut value = Vec::with_capacity(length + alignment);

        for _ in 0..(length + alignment) {
            let byte = reader.read_u8()?;
            value.push(byte);
        }
''','''        let length = usize::from(reader.read_u16()?);
        let padded = (length + 3) & !3;
        let value = reader.read_vec(padded)?;
''')]),
('=p2',['C14','C10','C11'],[(P,'let alignment = (4 - length % 4) % 4;\n        let aligned','let alignment = match length % 4 { 0 => 0, n => 4 - n };\n        let aligned'),(P,'''        for byte in &self.value {
            writer.write_u8(*byte)?;
        }

        for _ in 0..alignment {
            writer.write_u8(0x00)?;
        }''','''        writer.write_bytes(&self.value)?;
        writer.write_bytes(&[0u8; 3][..alignment])?;''')]),
('=p3',['C14','C01','C09'],[(P,'''        let mut value = Vec::with_capacity(length + alignment);

        for _ in 0..(length + alignment) {
            let byte = reader.read_u8()?;
            value.push(byte);
        }
''','''        let mut value = vec![0; length + alignment];
        reader.read_bytes(&mut value)?;
''')]),
('=p4',['C14','C10'],[(P,'''        for _ in 0..(length + alignment) {
            let byte = reader.read_u8()?;
            value.push(byte);
        }
''','''        while value.len() < length + alignment {
            value.push(reader.read_u8()?);
        }
''')]),
('=b1',['C13','C10','C11'],[(BS,'''        writer.write_u32((bytes.len() * 32) as u32)?;
        for byte in bytes {
            writer.write_u32(*byte)?;
        }
        Ok(())''','''        let number_of_bits = bytes.len() << 5;
        writer.write_u32(number_of_bits as u32)?;
        bytes.iter().try_for_each(|word| writer.write_u32(*word))''')]),
('=b2',['C13'],[(RB,'''        loop {
            match self.iter.next() {
                None => return None,
                Some((_, false)) => {}
                Some((i, true)) => {
                    return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));
                }
            }
        }''','''        let base = &self.base;
        self.iter
            .find(|(_, member)| *member)
            .and_then(|(i, _)| B::from_usize(i))
            .and_then(|offset| offset.checked_add(base))''')]),
('=b3',['C13'],[(RB,'''        loop {
            match self.iter.next() {
                None => return None,
                Some((_, false)) => {}
                Some((i, true)) => {
                    return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));
                }
            }
        }''','''        while let Some((i, member)) = self.iter.next() {
            if member {
                let offset = B::from_usize(i)?;
                return offset.checked_add(&self.base);
            }
        }
        None''')]),
('=b4',['C13'],[(RB,'''        value
            .checked_sub(&self.base)
            .and_then(|diff| NumCast::from(diff))
            .and_then(|normalized: u8| Some(std::convert::From::from(normalized)))''','''        let diff = value.checked_sub(&self.base)?;
        let normalized = diff.to_u64()?;
        if normalized < 256 { Some(normalized as usize) } else { None }'''),(RB,'''        match self.normalize(value) {
            Some(normalized) => self.set.insert(normalized),
            None => false,
        }''','''        self.normalize(value).map_or(false, |normalized| self.set.insert(normalized))''')]),
('=s1',['C10','C11','C13','C16','C07'],[(SN,'Ok(SequenceNumber_t(((i64::from(high)) << 32) + i64::from(low)))','Ok(SequenceNumber_t(i64::from(high) * 0x1_0000_0000 | i64::from(low)))'),(SN,'''        writer.write_i32((self.0 >> 32) as i32)?;
        writer.write_u32(self.0 as u32)?;
        Ok(())''','''        let value = self.0 as u64;
        writer.write_u32((value >> 32) as u32)?;
        writer.write_u32((value & 0xffff_ffff) as u32)''')]),
('=s2',['C10','C11','C02'],[(SH,'''                writer.write_u8(self.submessage_length as u8)?;
                writer.write_u8((self.submessage_length >> 8) as u8)?;''','''                writer.write_bytes(&self.submessage_length.to_le_bytes())?;'''),(SH,'''                writer.write_u8((self.submessage_length >> 8) as u8)?;
                writer.write_u8(self.submessage_length as u8)?;
            }
        };''','''                writer.write_bytes(&self.submessage_length.to_be_bytes())?;
            }
        };''')]),
('=s3',['C10','C11','C04'],[(PI,'''        let mut protocol_id = ProtocolId_t::default();
        for i in 0..protocol_id.protocol_id.len() {
            protocol_id.protocol_id[i] = reader.read_u8()? as char;
        }
        Ok(protocol_id)''','''        let mut bytes = [0u8; 4];
        reader.read_bytes(&mut bytes)?;
        Ok(ProtocolId_t { protocol_id: [char::from(bytes[0]), char::from(bytes[1]), char::from(bytes[2]), char::from(bytes[3])] })'''),(PI,'''        for elem in &self.protocol_id {
            writer.write_u8(*elem as u8)?
        }
        Ok(())''','''        self.protocol_id.iter().map(|c| *c as u8).try_for_each(|b| writer.write_u8(b))''')]),
('=s4',['C10','C11','C06'],[(LO,'''        for elem in &self.address {
            writer.write_u8(*elem)?;
        }
        Ok(())''','writer.write_bytes(&self.address)'),(EI,'''        for elem in &self.entity_key {
            writer.write_u8(*elem)?
        }
        writer.write_u8(self.entity_kind)''','''        let [a, b, c] = self.entity_key;
        for octet in [a, b, c, self.entity_kind].iter() {
            writer.write_u8(*octet)?;
        }
        Ok(())''')]),
('=f1',['C15','C02','C10'],[(SF,'''        if self.is_flag_set(0x01) {
            Endianness::LittleEndian
        } else {
            Endianness::BigEndian
        }''','''        match self.flags & 1 {
            0 => Endianness::BigEndian,
            _ => Endianness::LittleEndian,
        }'''),(SF,'self.flags &= !mask;','self.flags = (self.flags | mask) ^ mask;'),(SF,'self.flags & mask != 0','(!self.flags | !mask) != 0xff')]),
('=n1',['C16','C13'],[(CK,'(self.0).$method(v.0).map(|value| <$t>::from(value))','match (self.0).$method(v.0) {\n                    Some(value) => Some(<$t>::from(value)),\n                    None => None,\n                }')]),
('=n2',['C16','C13'],[(SN,'checked_impl!(CheckedSub, checked_sub, SequenceNumber_t);','''use num_traits::CheckedSub;
impl CheckedSub for SequenceNumber_t {
    fn checked_sub(&self, v: &SequenceNumber_t) -> Option<SequenceNumber_t> {
        let (difference, overflow) = (self.0).overflowing_sub(v.0);
        if overflow { None } else { Some(SequenceNumber_t(difference)) }
    }
}''')]),
]
