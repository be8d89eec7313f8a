RX='messages/receiver.rs'
ALL=['C01','C02','C03','C04','C05','C06','C07','C08','C09']
LOOP='''        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available => continue,
                Ok(item) => return Ok(item),
                Err(err) => {
                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }
'''
LAST='''                if submessage_header.submessage_length == 0
                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
                    && submessage_header.submessage_id != SubmessageKind::PAD
                {'''
CHECK='''                let mut submessage_length = usize::from(submessage_header.submessage_length);
                if bytes.len() - header_length < submessage_length {
                    return Ok(None);
                }
                bytes.advance(header_length);
'''
SPLIT="                let mut bytes = bytes.split_to(submessage_length);\n"
CTX='''                self.receiver = Receiver::new(self.locator_kind);
                self.receiver.source_guid_prefix = header.guid_prefix;
                self.receiver.source_version = header.protocol_version;
                self.receiver.source_vendor_id = header.vendor_id;
'''
MC='''                            if submessage_header.flags.is_flag_set(0x02) {
                                let (multicast_locator_list, read_bytes) =
                                    LocatorList_t::read_with_length_from_buffer_with_ctx(
                                        submessage_header.flags.endianness_flag(),
                                        &bytes,
                                    );
                                bytes.advance(read_bytes);
                                multicast_locator_list?
                            } else {
                                vec![]
                            };
'''
TS='''                        if !submessage_header.flags.is_flag_set(0x02) {
                            let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                submessage_header.flags.endianness_flag(),
                                &bytes,
                            )?;
                            self.receiver.have_timestamp = true;
                            self.receiver.timestamp = timestamp;
                        } else {
                            self.receiver.have_timestamp = false;
                        }
'''
GAP='''                        let gap = Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )?;
                        Ok(Some(EntitySubmessage::Gap(gap)))
'''
HDRR='''            .and_then(validate_header)
            .and_then(|header: Header| {'''
SRC='''                        self.receiver.source_guid_prefix = info_src.guid_prefix;
                        self.receiver.source_version = info_src.protocol_version;
                        self.receiver.source_vendor_id = info_src.vendor_id;
                        self.receiver.unicast_reply_locator_list = vec![Locator_t::LOCATOR_INVALID];
                        self.receiver.multicast_reply_locator_list =
                            vec![Locator_t::LOCATOR_INVALID];
                        self.receiver.have_timestamp = false;
'''
IP4U='''                        bytes.advance(
                            <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
                        );
'''
IMPL="impl MessageReceiver {\n    /// Decodes a header"
EOF='''        let item = self.decode(bytes)?;
        if item.is_none() {
            // The transport has reached the end of the message
            self.state = DeserializationState::ReadingHeader;
            if !bytes.is_empty() {
                bytes.clear();
                return Err(Error::new(ErrorKind::UnexpectedEof, "Truncated message"));
            }
        }
        Ok(item)
'''
M=[
('=loop-if',['C01','C02','C08'],[(RX,LOOP,'''        loop {
            let before = bytes.len();
            let result = self.decode_next(bytes);
            if let Ok(None) = result {
                if bytes.len() != before {
                    continue;
                }
            }
            if result.is_err() {
                self.state = DeserializationState::ReadingHeader;
                bytes.truncate(0);
            }
            return result;
        }
''')]),
('=loop-while',['C01','C02','C08'],[(RX,LOOP,'''        let mut available = bytes.len() + 1;
        while bytes.len() < available {
            available = bytes.len();
            match self.decode_next(bytes) {
                Ok(Some(item)) => return Ok(Some(item)),
                Ok(None) => (),
                Err(err) => {
                    let _ = bytes.split();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }
        Ok(None)
''')]),
('=err-new',['C08','C01'],[(RX,"                    bytes.clear();\n                    self.state","                    *bytes = BytesMut::new();\n                    self.state")]),
('=err-advance',['C08','C01'],[(RX,"                    bytes.clear();\n                    self.state","                    bytes.advance(bytes.len());\n                    self.state")]),
('err-split-off',['C08'],[(RX,"                    bytes.clear();\n                    self.state","                    let _ = bytes.split_off(bytes.len());\n                    self.state")]),
('=last-matches',ALL,[(RX,LAST,"                let may_be_empty = matches!(\n                    submessage_header.submessage_id,\n                    SubmessageKind::INFO_TS | SubmessageKind::PAD\n                );\n                if !may_be_empty && submessage_length == 0 {")]),
('=last-contains',['C02','C08'],[(RX,LAST,"                if submessage_length == 0\n                    && ![SubmessageKind::PAD, SubmessageKind::INFO_TS]\n                        .contains(&submessage_header.submessage_id)\n                {")]),
('=last-match',['C02','C08'],[(RX,LAST,"                let last = match (submessage_length, submessage_header.submessage_id) {\n                    (0, SubmessageKind::PAD) | (0, SubmessageKind::INFO_TS) => false,\n                    (n, _) => n == 0,\n                };\n                if last {")]),
('=check-checked',ALL,[(RX,CHECK,'''                let mut submessage_length = usize::from(submessage_header.submessage_length);
                match bytes.len().checked_sub(header_length) {
                    Some(n) if n >= submessage_length => (),
                    _ => return Ok(None),
                }
                bytes.advance(header_length);
''')]),
('=check-get',['C01','C02','C03'],[(RX,CHECK,'''                let mut submessage_length: usize = submessage_header.submessage_length.into();
                if bytes.get(header_length..header_length + submessage_length).is_none() {
                    return Ok(None);
                }
                let _ = bytes.split_to(header_length);
''')]),
('=check-reserve',['C01','C03'],[(RX,CHECK,'''                let mut submessage_length = usize::from(submessage_header.submessage_length);
                let wanted = header_length + submessage_length;
                if bytes.len() < wanted {
                    bytes.reserve(wanted - bytes.len());
                    return Ok(None);
                }
                bytes.advance(header_length);
''')]),
('check-or',['C03','C01'],[(RX,CHECK,'''                let mut submessage_length = usize::from(submessage_header.submessage_length);
                if bytes.len().saturating_sub(header_length * 2) < submessage_length.saturating_sub(header_length) {
                    return Ok(None);
                }
                bytes.advance(header_length);
''')]),
('=split-replace',['C02','C06','C07'],[(RX,SPLIT,"                let rest = bytes.split_off(submessage_length);\n                let mut bytes = std::mem::replace(bytes, rest);\n")]),
('=split-take',['C02','C06'],[(RX,SPLIT,"                let mut body = std::mem::take(bytes);\n                *bytes = body.split_off(submessage_length);\n                let mut bytes = body;\n")]),
('=split-freeze',['C01','C02','C06','C07'],[(RX,SPLIT,"                let mut bytes = bytes.split_to(submessage_length).freeze();\n")]),
('=split-copy',['C02','C06','C09'],[(RX,SPLIT,"                let body = BytesMut::from(&bytes[..submessage_length]);\n                bytes.advance(submessage_length);\n                let mut bytes = body;\n")]),
('=split-vec',['C02','C07','C01'],[(RX,SPLIT,"                let body = bytes[..submessage_length].to_vec();\n                bytes.advance(submessage_length);\n                let mut bytes = BytesMut::from(&body[..]);\n")]),
('=ctx-update',['C05','C04'],[(RX,CTX,'''                self.receiver = Receiver {
                    source_guid_prefix: header.guid_prefix,
                    source_version: header.protocol_version,
                    source_vendor_id: header.vendor_id,
                    ..Receiver::new(self.locator_kind)
                };
''')]),
('=ctx-destructure',['C05'],[(RX,CTX,'''                let Header { protocol_version, vendor_id, guid_prefix, .. } = header;
                let mut receiver = Receiver::new(self.locator_kind);
                receiver.source_guid_prefix = guid_prefix;
                receiver.source_vendor_id = vendor_id;
                receiver.source_version = protocol_version;
                std::mem::swap(&mut self.receiver, &mut receiver);
''')]),
('ctx-partial',['C05'],[(RX,CTX,'''                self.receiver = Receiver {
                    source_guid_prefix: header.guid_prefix,
                    source_version: header.protocol_version,
                    source_vendor_id: header.vendor_id,
                    multicast_reply_locator_list: std::mem::replace(
                        &mut self.receiver.multicast_reply_locator_list,
                        vec![],
                    ),
                    ..Receiver::new(self.locator_kind)
                };
''')]),
('=mc-then',['C06','C01','C09'],[(RX,MC,'''                            submessage_header
                                .flags
                                .is_flag_set(0x02)
                                .then(|| {
                                    LocatorList_t::read_with_length_from_buffer_with_ctx(
                                        submessage_header.flags.endianness_flag(),
                                        &bytes,
                                    )
                                    .0
                                })
                                .transpose()?
                                .unwrap_or_default();
''')]),
('=mc-match',['C06'],[(RX,MC,'''                            match submessage_header.flags.is_flag_set(0x02) {
                                false => Vec::new(),
                                true => LocatorList_t::read_from_buffer_with_ctx(
                                    submessage_header.flags.endianness_flag(),
                                    &bytes,
                                )?,
                            };
''')]),
('mc-default',['C06','C08'],[(RX,MC,'''                            submessage_header
                                .flags
                                .is_flag_set(0x02)
                                .then(|| {
                                    LocatorList_t::read_with_length_from_buffer_with_ctx(
                                        submessage_header.flags.endianness_flag(),
                                        &bytes,
                                    )
                                    .0
                                    .ok()
                                })
                                .flatten()
                                .unwrap_or_default();
''')]),
('=ts-option',['C06'],[(RX,TS,'''                        let invalidated = submessage_header.flags.is_flag_set(0x02);
                        let timestamp = if invalidated {
                            None
                        } else {
                            Some(Time_t::read_from_buffer_owned_with_ctx(
                                submessage_header.flags.endianness_flag(),
                                &bytes,
                            )?)
                        };
                        self.receiver.have_timestamp = timestamp.is_some();
                        self.receiver.timestamp = timestamp.unwrap_or(self.receiver.timestamp);
''')]),
('=ts-clear',['C06'],[(RX,TS,'''                        self.receiver.have_timestamp = !submessage_header.flags.is_flag_set(0x02);
                        if self.receiver.have_timestamp {
                            self.receiver.timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                submessage_header.flags.endianness_flag(),
                                &bytes,
                            )?;
                        }
''')]),
('ts-invalid-value',['C06'],[(RX,TS,'''                        let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )
                        .unwrap_or(Time_t::TIME_INVALID);
                        self.receiver.have_timestamp = timestamp != Time_t::TIME_INVALID && !submessage_header.flags.is_flag_set(0x02);
                        self.receiver.timestamp = timestamp;
''')]),
('=gap-map',['C07','C08'],[(RX,GAP,'''                        Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )
                        .map(|gap| Some(EntitySubmessage::Gap(gap)))
                        .map_err(Error::from)
''')]),
('=gap-match',['C07','C08'],[(RX,GAP,'''                        match Gap::read_from_buffer_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            bytes.as_ref(),
                        ) {
                            Ok(gap) => Ok(Some(EntitySubmessage::Gap(gap))),
                            Err(err) => Err(err.into()),
                        }
''')]),
('=generic',['C01','C07','C08'],[(RX,GAP,'''                        let gap: Gap = Self::read(&submessage_header, &bytes)?;
                        Ok(Some(EntitySubmessage::Gap(gap)))
'''),(RX,IMPL,'''impl MessageReceiver {
    fn read<T: for<'a> Readable<'a, Endianness>>(
        header: &SubmessageHeader,
        body: &[u8],
    ) -> Result<T, Error> {
        let endianness = header.flags.endianness_flag();
        T::read_from_buffer_owned_with_ctx(endianness, body).map_err(Error::from)
    }

    /// Decodes a header''')]),
('=gap-cursor',['C07','C08','C01'],[(RX,GAP,'''                        let gap = Gap::read_from_stream_unbuffered_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            std::io::Cursor::new(&bytes[..]),
                        )?;
                        Ok(Some(EntitySubmessage::Gap(gap)))
''')]),
('=src-method',['C06'],[(RX,SRC,"                        self.receiver.set_source(&info_src);\n"),(RX,"        Receiver {\n            source_version: ProtocolVersion_t::PROTOCOLVERSION,","        Self {\n            source_version: ProtocolVersion_t::PROTOCOLVERSION,"),(RX,"impl Receiver {\n",'''impl Receiver {
    fn set_source(&mut self, source: &InfoSource) {
        let unknown = || vec![Locator_t::LOCATOR_INVALID];
        self.source_guid_prefix = source.guid_prefix;
        self.source_version = source.protocol_version;
        self.source_vendor_id = source.vendor_id;
        self.unicast_reply_locator_list = unknown();
        self.multicast_reply_locator_list = unknown();
        self.have_timestamp = false;
    }

''')]),
('=src-clear-push',['C06'],[(RX,SRC,'''                        self.receiver.source_guid_prefix = info_src.guid_prefix;
                        self.receiver.source_version = info_src.protocol_version;
                        self.receiver.source_vendor_id = info_src.vendor_id;
                        for list in [
                            &mut self.receiver.unicast_reply_locator_list,
                            &mut self.receiver.multicast_reply_locator_list,
                        ] {
                            list.clear();
                            list.push(Locator_t::LOCATOR_INVALID);
                        }
                        self.receiver.have_timestamp = false;
''')]),
('src-clear-push',['C06'],[(RX,SRC,'''                        self.receiver.source_guid_prefix = info_src.guid_prefix;
                        self.receiver.source_version = info_src.protocol_version;
                        self.receiver.source_vendor_id = info_src.vendor_id;
                        for list in [
                            &mut self.receiver.unicast_reply_locator_list,
                            &mut self.receiver.multicast_reply_locator_list,
                        ] {
                            list.truncate(1);
                            for locator in list.iter_mut() {
                                *locator = Locator_t::LOCATOR_INVALID;
                            }
                        }
                        self.receiver.have_timestamp = false;
''')]),
('=ip4-split',['C06','C01'],[(RX,IP4U,"                        let mut bytes = bytes.split_off(8);\n                        let bytes = &mut bytes;\n")]),
('=eof-match',['C08','C03','C01'],[(RX,EOF,'''        match self.decode(bytes) {
            Ok(None) => {
                self.state = DeserializationState::ReadingHeader;
                let complete = bytes.is_empty();
                bytes.clear();
                if complete {
                    Ok(None)
                } else {
                    Err(ErrorKind::UnexpectedEof.into())
                }
            }
            other => other,
        }
''')]),
('=eof-and-then',['C08','C03','C01'],[(RX,EOF,'''        self.decode(bytes).and_then(|item| match item {
            Some(item) => Ok(Some(item)),
            None => {
                self.state = DeserializationState::ReadingHeader;
                if bytes.is_empty() {
                    return Ok(None);
                }
                bytes.clear();
                Err(Error::new(ErrorKind::UnexpectedEof, "Truncated message"))
            }
        })
''')]),
('=hdr-filter',['C04','C08'],[(RX,HDRR,"            .map(Some)\n            .and_then(|header| {\n                header\n                    .filter(|x: &Header| x.valid())\n                    .ok_or_else(|| speedy::Error::custom(\"Invalid data\".to_owned()))\n            })\n            .and_then(|header: Header| {")]),
]
M+=[
('=item-ctor',['C07','C08'],[(RX,GAP,'''                        Ok(Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )
                        .map(EntitySubmessage::Gap)
                        .map(Some)?)
''')]),
('=count-ctor',['C12','C07'],[('structure/count.rs',"impl From<i32>","impl Count_t {\n    #[allow(dead_code)]\n    fn all(xs: &[i32]) -> Vec<Count_t> {\n        xs.iter().copied().map(Count_t::from).collect()\n    }\n}\n\nimpl From<i32>")]),
]
