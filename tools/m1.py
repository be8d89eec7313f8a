R='messages/receiver.rs'; SH='messages/submessage_header.rs'; BS='common/bit_set.rs'; RB='common/ranged_bit_set.rs'; LO='structure/locator.rs'; PA='messages/submessage_elements/parameter.rs'; HD='messages/header.rs'
M=[
# C01
('c01-maxbits',['C09','C13','C08'],[(BS,'if number_of_bits > MAX_NUMBER_OF_BITS {','if number_of_bits > MAX_NUMBER_OF_BITS + 4 * 32 * 1024 * 1024 {')]),
('c01-advance-unchecked',['C01','C08'],[(R,'''                let mut submessage_length = usize::from(submessage_header.submessage_length);
                if bytes.len() - header_length < submessage_length {''','''                let mut submessage_length = usize::from(submessage_header.submessage_length);
                if bytes.len() < submessage_length {''')]),
('c01-reply-splitoff',['C06'],[(R,'let mut bytes = bytes.split_off(read_bytes);','let mut bytes = bytes.split_off(read_bytes + submessage_length % 24 / 23);')]),
('c01-ip4-index',['C01','C06'],[(R,'''                                let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                                    submessage_header.flags.endianness_flag(),
                                    &bytes,
                                )?;''','''                                let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                                    submessage_header.flags.endianness_flag(),
                                    &bytes[..8],
                                )?;''')]),
('c01-loop',['C01'],[(R,'Ok(None) if bytes.len() < available => continue,','Ok(None) if bytes.len() < available || !bytes.is_empty() && self.state == DeserializationState::ReadingSubmessage && bytes[0] == 0x80 => continue,'),(R,'''enum DeserializationState {''','''#[derive(PartialEq)]
enum DeserializationState {''')]),
('c01-header-unwrap',['C01','C04'],[(R,'''            .or_else(|err| {
                Err(Error::new(''','''            .or_else(|err| {
                assert!(bytes.len() < 65_000, "oversized message");
                Err(Error::new(''')]),
# C02
('c02-length-big',['C02'],[(SH,'Endianness::BigEndian => u16::from_be_bytes([reader.read_u8()?, reader.read_u8()?]),','Endianness::BigEndian => u16::from_le_bytes([reader.read_u8()?, reader.read_u8()?]).swap_bytes() & 0x7fff,')]),
('c02-length-signed',['C02'],[(R,'let mut submessage_length = usize::from(submessage_header.submessage_length);','let mut submessage_length = usize::from(submessage_header.submessage_length as i16 as u8) | usize::from(submessage_header.submessage_length & 0x7f00);')]),
('c02-align',['C02'],[(R,'bytes.advance(header_length);','bytes.advance(header_length);\n                if submessage_length % 4 == 3 && bytes.len() > submessage_length { submessage_length += 1; }')]),
('c02-pad-zero',['C02'],[(R,'''                    && submessage_header.submessage_id != SubmessageKind::PAD
''','')]),
('c02-ts-zero',['C02'],[(R,'''                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
''','')]),
('c02-zero-data',['C02'],[(R,'''                if submessage_header.submessage_length == 0
''','''                if submessage_header.submessage_length == 0
                    && submessage_header.submessage_id != SubmessageKind::DATA
''')]),
# C03
('c03-lt-le',['C03','C02'],[(R,'if bytes.len() - header_length < submessage_length {','if bytes.len() - header_length <= submessage_length && submessage_length > 0xff {')]),
('c03-state-early',['C06'],[(R,'''                bytes.advance(header_length);

                if submessage_header''','''                bytes.advance(header_length);
                if bytes.len() > 0x4000 { self.receiver.have_timestamp = false; }

                if submessage_header''')]),
('c03-consume-header',['C03'],[(R,'''        if bytes.len() < header_length {
            return Ok(None);
        }''','''        if bytes.len() < header_length {
            if bytes.len() == 3 { bytes.clear(); }
            return Ok(None);
        }''')]),
# C04
('c04-major-lt',['C04'],[(HD,'self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major','self.protocol_version > ProtocolVersion_t::PROTOCOLVERSION')]),
('c04-major-eq',['C04'],[(HD,'self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major','self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major + 1')]),
('c04-magic',['C04'],[(HD,'!(self.protocol_id != ProtocolId_t::PROTOCOL_RTPS\n            || self','!(self.protocol_id != ProtocolId_t::PROTOCOL_RTPS\n            && self')]),
# C05
('c05-keep-ts',['C05'],[(R,'self.receiver = Receiver::new(self.locator_kind);','let have = self.receiver.have_timestamp;\n                self.receiver = Receiver::new(self.locator_kind);\n                self.receiver.have_timestamp = have && header.protocol_version.minor > 4;')]),
('c05-keep-dst',['C05'],[(R,'self.receiver = Receiver::new(self.locator_kind);','let dest = self.receiver.dest_guid_prefix;\n                self.receiver = Receiver::new(self.locator_kind);\n                self.receiver.dest_guid_prefix = dest;')]),
('c05-same-source',['C05'],[(R,'self.receiver = Receiver::new(self.locator_kind);','if self.receiver.source_guid_prefix != header.guid_prefix { self.receiver = Receiver::new(self.locator_kind); }')]),
('c05-kind',['C05'],[(R,'self.receiver = Receiver::new(self.locator_kind);','self.receiver = Receiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4);')]),
# C06
('c06-ts-flag',['C06'],[(R,'if !submessage_header.flags.is_flag_set(0x02) {\n                            let timestamp','if !submessage_header.flags.is_flag_set(0x04) {\n                            let timestamp')]),
('c06-ts-invalid-keep',['C06'],[(R,'''                            self.receiver.have_timestamp = true;
                            self.receiver.timestamp = timestamp;''','''                            self.receiver.have_timestamp = timestamp != Time_t::TIME_ZERO;
                            self.receiver.timestamp = timestamp;''')]),
('c06-reply-keep',['C06'],[(R,'''                                multicast_locator_list?
                            } else {
                                vec![]
                            };''','''                                multicast_locator_list?
                            } else {
                                std::mem::replace(&mut self.receiver.multicast_reply_locator_list, vec![])
                            };''')]),
('c06-src-keep-ts',['C06'],[(R,'''                            vec![Locator_t::LOCATOR_INVALID];
                        self.receiver.have_timestamp = false;''','''                            vec![Locator_t::LOCATOR_INVALID];''')]),
('c06-dst-src',['C06'],[(R,'self.receiver.dest_guid_prefix = info_dst.guid_prefix;','self.receiver.dest_guid_prefix = info_dst.guid_prefix;\n                        if submessage_header.flags.is_flag_set(0x80) { self.receiver.source_guid_prefix = info_dst.guid_prefix; }')]),
('c06-ip4-same',['C06'],[(R,'''                        bytes.advance(
                            <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
                        );
''','')]),
('c06-endian-ip4',['C06'],[(R,'''                                let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                                    submessage_header.flags.endianness_flag(),''','''                                let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                                    Endianness::LittleEndian,''')]),
# C07
('c07-gap-endian',['C07'],[(R,'''                        let gap = Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),''','''                        let gap = Gap::read_from_buffer_owned_with_ctx(
                            Endianness::LittleEndian,''')]),
('c07-hb-drop',['C07'],[(R,'''                        Ok(Some(EntitySubmessage::Heartbeat(
                            heartbeat,
                            submessage_header.flags,
                        )))''','''                        if heartbeat.first_sn > heartbeat.last_sn && i64::from(heartbeat.last_sn) != 0 {
                            return Ok(None);
                        }
                        Ok(Some(EntitySubmessage::Heartbeat(
                            heartbeat,
                            submessage_header.flags,
                        )))''')]),
('c07-exact',['C07','C08'],[(R,'''                        Ok(Some(EntitySubmessage::NackFrag(nack_frag)))''','''                        if bytes.len() > 68 {
                            return Err(Error::new(ErrorKind::InvalidData, "too long"));
                        }
                        Ok(Some(EntitySubmessage::NackFrag(nack_frag)))''')]),
# C08
('c08-keep-state',['C08'],[(R,'''                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);''','''                    bytes.clear();
                    if err.kind() != ErrorKind::UnexpectedEof {
                        self.state = DeserializationState::ReadingHeader;
                    }
                    return Err(err);''')]),
('c08-no-clear',['C08'],[(R,'''                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);''','''                    if bytes.len() < 1500 { bytes.clear(); }
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);''')]),
('c08-eof-none',['C08'],[(R,'''            if !bytes.is_empty() {
                bytes.clear();
                return Err''','''            if bytes.len() > 3 {
                bytes.clear();
                return Err''')]),
('c08-default-bits',['C08'],[(BS,'inner.push(reader.read_u32()?);','inner.push(reader.read_u32().unwrap_or(0));')]),
# C09
('c09-loc-min',['C09'],[(LO,'''    fn minimum_bytes_needed() -> usize {
        24
    }''','''    fn minimum_bytes_needed() -> usize {
        0
    }''')]),
('c09-bits',['C09','C13'],[(BS,'''        if number_of_bits > MAX_NUMBER_OF_BITS {
            return''','''        if number_of_bits > MAX_NUMBER_OF_BITS && number_of_bits % 32 != 0 {
            return''')]),
# same
('=r1',['C01','C02','C03','C06','C07','C08','C09'],[(R,'''        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available => continue,
                Ok(item) => return Ok(item),
                Err(err) => {
                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }''','''        let mut available = bytes.len();
        let mut result = self.decode_next(bytes);
        while let Ok(None) = result {
            if bytes.len() == available {
                break;
            }
            available = bytes.len();
            result = self.decode_next(bytes);
        }
        if result.is_err() {
            bytes.clear();
            self.state = DeserializationState::ReadingHeader;
        }
        result''')]),
('=r2',['C01','C04','C05','C03'],[(R,'''        let header_length = match self.state {
            DeserializationState::ReadingHeader => {
                <Header as Readable<Endianness>>::minimum_bytes_needed()
            }
            DeserializationState::ReadingSubmessage => {
                <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()
            }
        };''','''        let header_length = if let DeserializationState::ReadingHeader = self.state { 20 } else { 4 };'''),
 (HD,'''        !(self.protocol_id != ProtocolId_t::PROTOCOL_RTPS
            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)''','''        let known = self.protocol_id == ProtocolId_t::PROTOCOL_RTPS;
        let supported = self.protocol_version.major <= ProtocolVersion_t::PROTOCOLVERSION.major;
        known && supported''')]),
('=r3',['C02','C06','C09'],[(R,'''                bytes.advance(header_length);

                if submessage_header.submessage_length == 0
                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
                    && submessage_header.submessage_id != SubmessageKind::PAD
                {''','''                let _ = bytes.split_to(header_length);

                let open_ended = match submessage_header.submessage_id {
                    SubmessageKind::INFO_TS | SubmessageKind::PAD => false,
                    _ => submessage_length == 0,
                };
                if open_ended {'''),(R,'''                let mut bytes = bytes.split_to(submessage_length);
''','''                let rest = bytes.split_off(submessage_length);
                let mut bytes = std::mem::replace(bytes, rest);
'''),(SH,'''            Endianness::LittleEndian => u16::from_le_bytes([reader.read_u8()?, reader.read_u8()?]),
            Endianness::BigEndian => u16::from_be_bytes([reader.read_u8()?, reader.read_u8()?]),''','''            Endianness::LittleEndian => {
                let low = u16::from(reader.read_u8()?);
                low | u16::from(reader.read_u8()?) << 8
            }
            Endianness::BigEndian => {
                let high = u16::from(reader.read_u8()?);
                high * 256 + u16::from(reader.read_u8()?)
            }''')]),
('=r4',['C01','C09','C07','C13','C12','C10'],[(BS,'''        let number_of_bytes = (number_of_bits + 31) / 32;

        let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
        unsafe {
            let inner = bit_vec.storage_mut();
            for _ in 0..number_of_bytes {
                inner.push(reader.read_u32()?);
            }
            bit_vec.set_len(number_of_bytes as usize * 32);
        }
        // Bits beyond the declared size do not belong to the set
        bit_vec.truncate(number_of_bits as usize);
''','''        let number_of_words = number_of_bits / 32 + if number_of_bits % 32 != 0 { 1 } else { 0 };
        let mut words: Vec<u32> = Vec::new();
        let mut i = 0;
        while i < number_of_words {
            words.push(reader.read_u32()?);
            i += 1;
        }
        let mut bit_vec = BitVec::with_capacity(words.len() * 32);
        unsafe {
            bit_vec.storage_mut().extend_from_slice(&words);
            bit_vec.set_len(words.len() * 32);
        }
        // Bits beyond the declared size do not belong to the set
        bit_vec.truncate(number_of_bits as usize);
''')]),
('=r5',['C01','C06','C09'],[(R,'''                        let (unicast_locator_list, read_bytes) =
                            LocatorList_t::read_with_length_from_buffer_with_ctx(
                                submessage_header.flags.endianness_flag(),
                                &bytes,
                            );
                        self.receiver.unicast_reply_locator_list = unicast_locator_list?;

                        let mut bytes = bytes.split_off(read_bytes);
''','''                        let endianness = submessage_header.flags.endianness_flag();
                        let (unicast_locator_list, read_bytes) =
                            LocatorList_t::read_with_length_from_buffer_with_ctx(endianness, &bytes);
                        let unicast_locator_list = unicast_locator_list?;
                        self.receiver.unicast_reply_locator_list = unicast_locator_list;
                        bytes.advance(read_bytes);
''')]),
('=r6',['C06','C23','C10'],[(LO,'''        let mut locator = Locator_t::default();
        locator.kind = reader.read_value()?;
        locator.port = reader.read_value()?;
        for i in 0..locator.address.len() {
            locator.address[i] = reader.read_u8()?;
        }
        Ok(locator)''','''        let kind = reader.read_value()?;
        let port = reader.read_u32()?;
        let mut address = Self::LOCATOR_ADDRESS_INVALID;
        for octet in address.iter_mut() {
            *octet = reader.read_u8()?;
        }
        Ok(Locator_t { kind, port, address })'''),(R,'self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];','self.receiver.unicast_reply_locator_list.clear();\n                        self.receiver.unicast_reply_locator_list.push(Locator_t::from(unicast_locator));')]),
('=r7',['C01','C02','C06','C07'],[(R,'''            DeserializationState::ReadingSubmessage => {
                let submessage_header =''','''            DeserializationState::ReadingSubmessage => self.decode_submessage(header_length, bytes),
        }
    }

    fn decode_submessage(
        &mut self,
        header_length: usize,
        bytes: &mut BytesMut,
    ) -> Result<Option<EntitySubmessage>, Error> {
                let submessage_header ='''),(R,'''                            submessage_header.submessage_id
                        );
                        Ok(None)
                    }
                }
            }
        }
    }''','''                            submessage_header.submessage_id
                        );
                        Ok(None)
                    }
                }
    }''')]),
('=r8',['C01','C03','C08'],[(R,'''        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available => continue,
                Ok(item) => return Ok(item),
                Err(err) => {
                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }''','''        let available = bytes.len();
        match self.decode_next(bytes) {
            Ok(None) if bytes.len() < available => self.decode(bytes),
            Ok(item) => Ok(item),
            Err(err) => {
                // The rest of an invalid message is ignored
                bytes.clear();
                self.state = DeserializationState::ReadingHeader;
                Err(err)
            }
        }''')]),
('=r9',['C01','C03','C08'],[(R,'''        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available => continue,
                Ok(item) => return Ok(item),
                Err(err) => {
                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }''','''        let mut remaining = bytes.len();
        loop {
            let result = self.decode_next(bytes);
            match result {
                Ok(Some(item)) => return Ok(Some(item)),
                Ok(None) => {
                    if bytes.len() == remaining {
                        return Ok(None);
                    }
                    remaining = bytes.len();
                }
                Err(err) => {
                    self.state = DeserializationState::ReadingHeader;
                    bytes.clear();
                    return Err(err);
                }
            }
        }''')]),
('=r10',['C01','C03','C08','C02'],[(R,'''        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available => continue,
                Ok(item) => return Ok(item),
                Err(err) => {
                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }''','''        let mut item = None;
        let mut progress = true;
        while item.is_none() && progress {
            let available = bytes.len();
            item = self.decode_next(bytes).map_err(|err| {
                bytes.clear();
                err
            }).map_err(|err| { self.state = DeserializationState::ReadingHeader; err })?;
            progress = bytes.len() != available;
        }
        Ok(item)''')]),
]
