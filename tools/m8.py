BS='common/bit_set.rs'; RB='common/ranged_bit_set.rs'; TI='structure/time.rs'; DU='structure/duration.rs'; LO='structure/locator.rs'; LV='structure/locator_udp_v4.rs'
FL='messages/submessage_flag.rs'; PA='messages/submessage_elements/parameter.rs'; SH='messages/submessage_header.rs'; EI='structure/entity_id.rs'; SN='structure/sequence_number.rs'
BW='''        let bytes = self.0.get_ref().storage();
        writer.write_u32((bytes.len() * 32) as u32)?;
        for byte in bytes {
            writer.write_u32(*byte)?;
        }
        Ok(())
'''
BR='''        let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
        unsafe {
            let inner = bit_vec.storage_mut();
            for _ in 0..number_of_bytes {
                inner.push(reader.read_u32()?);
            }
            bit_vec.set_len(number_of_bytes as usize * 32);
        }
        // Bits beyond the declared size do not belong to the set
        bit_vec.truncate(number_of_bits as usize);

        Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
'''
NORM='''        value
            .checked_sub(&self.base)
            .and_then(|diff| NumCast::from(diff))
            .and_then(|normalized: u8| Some(std::convert::From::from(normalized)))
'''
NEXT='''        loop {
            match self.iter.next() {
                None => return None,
                Some((_, false)) => {}
                Some((i, true)) => {
                    return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));
                }
            }
        }
'''
INS='''        match self.normalize(value) {
            Some(normalized) => self.set.insert(normalized),
            None => false,
        }
'''
FT='''        sys_time
            .duration_since(std::time::UNIX_EPOCH)
            .and_then(|dur_since_epoch| {
                let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
                Ok(i32::try_from(dur_since_epoch.as_secs())
                    .map(|seconds| Time_t {
                        seconds,
                        fraction: fraction as u32,
                    })
                    .unwrap_or(Time_t::TIME_INVALID))
            })
            .unwrap_or(Time_t::TIME_INVALID)
'''
TT='''        match time {
            Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
            _ if time.seconds < 0 => Err("Conversion from a time before the epoch"),
            _ => {
                let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
            }
        }
'''
FD='''        if duration.as_secs() > std::i32::MAX as u64 {
            return Duration_t::DURATION_INFINITE;
        }

        Duration_t {
            seconds: duration.as_secs() as i32,
            fraction: duration.subsec_nanos() as u32,
        }
'''
FS='''        Locator_t {
            kind: if socket_address.ip().is_unspecified() {
                LocatorKind_t::LOCATOR_KIND_INVALID
            } else if socket_address.ip().is_ipv4() {
                LocatorKind_t::LOCATOR_KIND_UDPv4
            } else {
                LocatorKind_t::LOCATOR_KIND_UDPv6
            },
            port: u32::from(socket_address.port()),
            address: match socket_address.ip() {
                IpAddr::V4(ip4) => ip4.to_ipv6_compatible().octets(),
                IpAddr::V6(ip6) => ip6.octets(),
            },
        }
'''
LS='''        // There is no UDP address with such a port
        if locator.port > u32::from(std::u16::MAX) {
            return SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0);
        }

        match locator.kind {
            LocatorKind_t::LOCATOR_KIND_UDPv4 => SocketAddr::new(
                IpAddr::V4(Ipv4Addr::new(
                    locator.address[12],
                    locator.address[13],
                    locator.address[14],
                    locator.address[15],
                )),
                locator.port as u16,
            ),
            LocatorKind_t::LOCATOR_KIND_UDPv6 => SocketAddr::new(
                IpAddr::V6(Ipv6Addr::from(locator.address)),
                locator.port as u16,
            ),
            _ => SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0),
        }
'''
LR='''        for i in 0..locator.address.len() {
            locator.address[i] = reader.read_u8()?;
        }
'''
LW='''        for elem in &self.address {
            writer.write_u8(*elem)?;
        }
'''
PR='''        let mut value = Vec::with_capacity(length + alignment);

        for _ in 0..(length + alignment) {
            let byte = reader.read_u8()?;
            value.push(byte);
        }
'''
PW='''        for byte in &self.value {
            writer.write_u8(*byte)?;
        }

        for _ in 0..alignment {
            writer.write_u8(0x00)?;
        }
'''
HR='''        let submessage_length = match flags.endianness_flag() {
            Endianness::LittleEndian => u16::from_le_bytes([reader.read_u8()?, reader.read_u8()?]),
            Endianness::BigEndian => u16::from_be_bytes([reader.read_u8()?, reader.read_u8()?]),
        };
'''
HW='''        match &self.flags.endianness_flag() {
            // matching via writer.context().endianness() panics
            speedy::Endianness::LittleEndian => {
                writer.write_u8(self.submessage_length as u8)?;
                writer.write_u8((self.submessage_length >> 8) as u8)?;
            }
            speedy::Endianness::BigEndian => {
                writer.write_u8((self.submessage_length >> 8) as u8)?;
                writer.write_u8(self.submessage_length as u8)?;
            }
        };
'''
ER='''        let entity_key = [reader.read_u8()?, reader.read_u8()?, reader.read_u8()?];
        let entity_kind = reader.read_u8()?;
'''
EW='''        for elem in &self.entity_key {
            writer.write_u8(*elem)?
        }
        writer.write_u8(self.entity_kind)
'''
SR="        Ok(SequenceNumber_t(((i64::from(high)) << 32) + i64::from(low)))"
SW_='''        writer.write_i32((self.0 >> 32) as i32)?;
        writer.write_u32(self.0 as u32)?;
'''
M=[
('=bw-iter',['C10','C11'],[(BS,BW,"        let words = self.0.get_ref().storage();\n        writer.write_u32(32 * words.len() as u32)?;\n        words.iter().try_for_each(|word| writer.write_u32(*word))\n")]),
('=bw-blocks',['C10','C11'],[(BS,BW,"        let words: Vec<u32> = self.0.get_ref().blocks().collect();\n        writer.write_u32((words.len() << 5) as u32)?;\n        for i in 0..words.len() {\n            writer.write_u32(words[i])?;\n        }\n        Ok(())\n")]),
('=bw-slice',['C10','C11'],[(BS,BW,"        let words = self.0.get_ref().storage();\n        writer.write_u32((words.len() * 32) as u32)?;\n        writer.write_slice(words)\n")]),
('bw-nonzero',['C10'],[(BS,BW,"        let words = self.0.get_ref().storage();\n        let n = words.iter().rposition(|word| *word != 0).map_or(0, |i| i);\n        writer.write_u32(((n + 1) * 32) as u32)?;\n        for word in words.iter().take(n + 1) {\n            writer.write_u32(*word)?;\n        }\n        Ok(())\n")]),
('=br-vec',['C07','C08','C09','C01','C10'],[(BS,BR,'''        let mut words = Vec::with_capacity(number_of_bytes as usize);
        for _ in 0..number_of_bytes {
            words.push(reader.read_u32()?);
        }
        let mut bit_vec = BitVec::from_elem(number_of_bits as usize, false);
        for i in 0..number_of_bits as usize {
            if words[i / 32] & (1 << (i % 32)) != 0 {
                bit_vec.set(i, true);
            }
        }
        Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
''')]),
('=br-collect',['C07','C08','C09'],[(BS,BR,'''        let words = (0..number_of_bytes)
            .map(|_| reader.read_u32())
            .collect::<Result<Vec<u32>, C::Error>>()?;
        let mut set = BitSet::with_capacity(number_of_bits as usize);
        for i in 0..number_of_bits as usize {
            if (words[i >> 5] >> (i & 31)) & 1 == 1 {
                set.insert(i);
            }
        }
        Ok(BitSetRef(set))
''')]),
('br-div',['C07','C08','C01'],[(BS,"(number_of_bits + 31) / 32","(number_of_bits + 32) / 32")]),
('=br-div-ceil',['C07','C08'],[(BS,"(number_of_bits + 31) / 32","number_of_bits / 32 + u32::from(number_of_bits % 32 != 0)")]),
('=norm-match',['C13','C01'],[(RB,NORM,'''        let diff = value.checked_sub(&self.base)?;
        match diff.to_u64() {
            Some(offset) if offset <= 255 => Some(offset as usize),
            _ => None,
        }
''')]),
('=norm-filter',['C13'],[(RB,NORM,"        value\n            .checked_sub(&self.base)\n            .and_then(|diff| diff.to_usize())\n            .filter(|offset| *offset < 256)\n")]),
('=norm-u8',['C13'],[(RB,NORM,"        value\n            .checked_sub(&self.base)?\n            .to_u8()\n            .map(usize::from)\n")]),
('norm-trunc',['C13'],[(RB,NORM,"        value\n            .checked_sub(&self.base)?\n            .to_u64()\n            .map(|offset| offset as u16)\n            .filter(|offset| *offset < 256)\n            .map(usize::from)\n")]),
('=next-while',['C13'],[(RB,NEXT,'''        while let Some((i, present)) = self.iter.next() {
            if present {
                return B::from_usize(i)?.checked_add(&self.base);
            }
        }
        None
''')]),
('=next-find',['C13'],[(RB,NEXT,"        let (i, _) = self.iter.find(|(_, present)| *present)?;\n        B::from_usize(i).and_then(|offset| offset.checked_add(&self.base))\n")]),
('=next-by-ref',['C13'],[(RB,NEXT,"        let base = &self.base;\n        self.iter\n            .by_ref()\n            .filter(|(_, present)| *present)\n            .map(|(i, _)| i)\n            .next()\n            .and_then(B::from_usize)\n            .and_then(|offset| offset.checked_add(base))\n")]),
('next-skip-fail',['C13'],[(RB,NEXT,'''        while let Some((i, present)) = self.iter.next() {
            if present {
                if let Some(value) = B::from_u8(i as u8).and_then(|x| x.checked_add(&self.base)) {
                    return Some(value);
                }
            }
        }
        None
''')]),
('=ins-map',['C13'],[(RB,INS,"        let set = &mut self.set;\n        match value.checked_sub(&self.base).and_then(|diff| diff.to_u8()) {\n            None => false,\n            Some(i) => set.insert(i.into()),\n        }\n")]),
('=ins-contains',['C13'],[(RB,INS,"        if let Some(i) = self.normalize(value) {\n            let fresh = !self.set.contains(i);\n            self.set.insert(i);\n            return fresh;\n        }\n        false\n")]),
('=ft-match',['C21'],[(TI,FT,'''        let since = match sys_time.duration_since(std::time::UNIX_EPOCH) {
            Ok(since) => since,
            Err(_) => return Time_t::TIME_INVALID,
        };
        if since.as_secs() > std::i32::MAX as u64 {
            return Time_t::TIME_INVALID;
        }
        Time_t {
            seconds: since.as_secs() as i32,
            fraction: ((u64::from(since.subsec_nanos()) << 32) / 1_000_000_000) as u32,
        }
''')]),
('=ft-u128',['C21'],[(TI,FT,'''        sys_time
            .duration_since(std::time::SystemTime::UNIX_EPOCH)
            .ok()
            .and_then(|since| {
                let seconds = i32::try_from(since.as_secs()).ok()?;
                let fraction = (u128::from(since.subsec_nanos()) * (1 << 32)) / 1_000_000_000;
                Some(Time_t { seconds, fraction: fraction as u32 })
            })
            .unwrap_or(Time_t::TIME_INVALID)
''')]),
('ft-micros',['C21'],[(TI,"(i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC","(i64::from(dur_since_epoch.subsec_micros()) << 32) / (NANOS_PER_SEC / 1_000)")]),
('=tt-if',['C21'],[(TI,TT,'''        if time == Time_t::TIME_INVALID {
            return Err("Conversion from Time_t::TIME_INVALID");
        }
        let seconds = u64::try_from(time.seconds).map_err(|_| "Conversion from a time before the epoch")?;
        let nanos = ((u64::from(time.fraction) * 1_000_000_000) >> 32) as u32;
        std::time::UNIX_EPOCH
            .checked_add(Duration::new(seconds, nanos))
            .ok_or("Not representable")
''')]),
('=fd-try',['C22'],[(DU,FD,'''        use std::convert::TryFrom;
        match i32::try_from(duration.as_secs()) {
            Ok(seconds) => Duration_t {
                seconds,
                fraction: duration.subsec_nanos(),
            },
            Err(_) => Duration_t::DURATION_INFINITE,
        }
''')]),
('=fs-match',['C23'],[(LO,FS,'''        let (kind, address) = match socket_address {
            SocketAddr::V4(v4) => {
                let mut address = [0; 16];
                address[12..].copy_from_slice(&v4.ip().octets());
                (LocatorKind_t::LOCATOR_KIND_UDPv4, address)
            }
            SocketAddr::V6(v6) => (LocatorKind_t::LOCATOR_KIND_UDPv6, v6.ip().octets()),
        };
        Locator_t {
            kind: if address == Locator_t::LOCATOR_ADDRESS_INVALID {
                LocatorKind_t::LOCATOR_KIND_INVALID
            } else {
                kind
            },
            port: socket_address.port().into(),
            address,
        }
''')]),
('fs-loopback',['C23'],[(LO,"if socket_address.ip().is_unspecified() {","if socket_address.ip().is_unspecified() || socket_address.ip().is_multicast() {")]),
('=ls-try',['C23','C01'],[(LO,LS,'''        use std::convert::TryFrom;
        let unspecified = SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0);
        let port = match u16::try_from(locator.port) {
            Ok(port) => port,
            Err(_) => return unspecified,
        };
        match locator.kind {
            LocatorKind_t::LOCATOR_KIND_UDPv4 => {
                let mut ip = [0; 4];
                ip.copy_from_slice(&locator.address[12..]);
                (ip, port).into()
            }
            LocatorKind_t::LOCATOR_KIND_UDPv6 => (locator.address, port).into(),
            _ => unspecified,
        }
''')]),
('=lr-iter',['C07','C06','C10','C01'],[(LO,LR,"        for octet in locator.address.iter_mut() {\n            *octet = reader.read_value()?;\n        }\n")]),
('=lr-bytes',['C06','C10','C01'],[(LO,LR,"        reader.read_bytes(&mut locator.address)?;\n")]),
('=lr-value',['C06','C10','C01'],[(LO,LR,"        locator.address = reader.read_value()?;\n")]),
('=lw-slice',['C10','C11'],[(LO,LW,"        writer.write_bytes(&self.address)?;\n")]),
('=lw-enumerate',['C10','C11'],[(LO,LW,"        for i in 0..16 {\n            writer.write_value(&self.address[i])?;\n        }\n")]),
('lw-rev',['C10','C11'],[(LO,LW,"        let ip4 = self.kind == LocatorKind_t::LOCATOR_KIND_UDPv4;\n        for (i, elem) in self.address.iter().enumerate() {\n            writer.write_u8(if ip4 && i < 12 { 0 } else { *elem })?;\n        }\n")]),
('=pr-vec',['C14','C01','C09'],[(PA,PR,"        let value: Vec<u8> = reader.read_vec(length + alignment)?;\n")]),
('=pr-map',['C14','C01','C09'],[(PA,PR,"        let value = (0..length + alignment)\n            .map(|_| reader.read_u8())\n            .collect::<Result<Vec<u8>, _>>()?;\n")]),
('=pr-zeroed',['C14','C01','C09'],[(PA,PR,"        let mut value = vec![0; length + alignment];\n        reader.read_bytes(&mut value)?;\n")]),
('=pr-while',['C14','C01','C09'],[(PA,PR,"        let mut value = Vec::new();\n        while value.len() < length + alignment {\n            value.push(reader.read_u8()?);\n        }\n")]),
('pr-drop-pad',['C14'],[(PA,PR,PR+"        value.truncate(length);\n".replace('length','length.max(1)'))]),
('=pw-slice',['C14','C10'],[(PA,PW,"        writer.write_bytes(&self.value)?;\n        writer.write_bytes(&[0; 3][..alignment])?;\n")]),
('=pw-chain',['C14','C10'],[(PA,PW,"        for byte in self.value.iter().chain(std::iter::repeat(&0).take(alignment)) {\n            writer.write_u8(*byte)?;\n        }\n")]),
('=hr-u16',['C10','C02','C11'],[(SH,HR,"        let (first, second) = (reader.read_u8()?, reader.read_u8()?);\n        let submessage_length = if flags.is_flag_set(0x01) {\n            u16::from(second) << 8 | u16::from(first)\n        } else {\n            u16::from(first) << 8 | u16::from(second)\n        };\n")]),
('=hr-swap',['C10','C02'],[(SH,HR,"        let bytes = [reader.read_u8()?, reader.read_u8()?];\n        let mut submessage_length = u16::from_be_bytes(bytes);\n        if flags.endianness_flag() == Endianness::LittleEndian {\n            submessage_length = submessage_length.swap_bytes();\n        }\n")]),
('=hw-bytes',['C10','C11'],[(SH,HW,"        let length = match self.flags.endianness_flag() {\n            Endianness::LittleEndian => self.submessage_length.to_le_bytes(),\n            Endianness::BigEndian => self.submessage_length.to_be_bytes(),\n        };\n        writer.write_bytes(&length)?;\n")]),
('=er-read',['C10','C07'],[(EI,ER,"        let mut entity_key = [0; 3];\n        reader.read_bytes(&mut entity_key)?;\n        let entity_kind = reader.read_u8()?;\n")]),
('=er-split',['C10','C07'],[(EI,ER,"        let bytes: [u8; 4] = reader.read_value()?;\n        let [a, b, c, entity_kind] = bytes;\n        let entity_key = [a, b, c];\n")]),
('=ew-concat',['C10','C11'],[(EI,EW,"        let [a, b, c] = self.entity_key;\n        writer.write_bytes(&[a, b, c, self.entity_kind])\n")]),
('=sr-or',['C10','C07'],[(SN,SR,"        Ok(SequenceNumber_t(i64::from(high) << 32 | i64::from(low)))")]),
('=sr-mul',['C10','C07','C01'],[(SN,SR,"        Ok(SequenceNumber_t(i64::from(high) * 0x1_0000_0000 + i64::from(low)))")]),
('=sw-bytes',['C10','C11'],[(SN,SW_,"        let high = (self.0 as u64 >> 32) as u32;\n        writer.write_value(&(high as i32))?;\n        writer.write_value(&((self.0 & 0xffff_ffff) as u32))?;\n")]),
('=fl-contains',['C15','C02'],[(FL,"        self.flags & mask != 0","        let Self { flags } = self;\n        (*flags & mask).count_ones() > 0")]),
('=fl-xor',['C15'],[(FL,"        self.flags &= !mask;","        self.flags ^= self.flags & mask;")]),
]
