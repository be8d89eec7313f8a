# the decoder with guards, callable values and other shapes
RE='messages/receiver.rs'; HC='structure/history_cache.rs'
ERR='''                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);'''
STRUCT='pub struct MessageReceiver {\n'
def guard(cond):
    return [(RE,ERR,'''                    // The rest of an invalid message is ignored
                    let _reset = Reset {
                        bytes,
                        state: &mut self.state,
                    };
                    return Err(err);'''),(RE,STRUCT,'''struct Reset<'a> {
    bytes: &'a mut BytesMut,
    state: &'a mut DeserializationState,
}

impl<'a> Drop for Reset<'a> {
    fn drop(&mut self) {
        %s
    }
}

%s''' % (cond, STRUCT))]
GAPS='''                        let gap = Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )?;
                        Ok(Some(EntitySubmessage::Gap(gap)))'''
LOOP='''        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available => continue,
                Ok(item) => return Ok(item),
                Err(err) => {
                    // The rest of an invalid message is ignored
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }'''
EOF='''        let item = self.decode(bytes)?;
        if item.is_none() {
            // The transport has reached the end of the message
            self.state = DeserializationState::ReadingHeader;
            if !bytes.is_empty() {
                bytes.clear();
                return Err(Error::new(ErrorKind::UnexpectedEof, "Truncated message"));
            }
        }
        Ok(item)'''
ALL=['C01','C02','C03','C05','C08']
M=[
('=guard',ALL,guard('self.bytes.clear();\n        *self.state = DeserializationState::ReadingHeader;')),
('guard-nonempty',['C08','C05'],guard('if !self.bytes.is_empty() {\n            self.bytes.clear();\n            *self.state = DeserializationState::ReadingHeader;\n        }')),
('=fnptr',['C07','C08','C01'],[(RE,GAPS,'''                        let read: fn(Endianness, &[u8]) -> Result<Gap, speedy::Error> =
                            Gap::read_from_buffer_owned_with_ctx;
                        let gap = read(submessage_header.flags.endianness_flag(), &bytes)?;
                        Ok(Some(EntitySubmessage::Gap(gap)))''')]),
('=dyn',['C07','C08','C01'],[(RE,GAPS,'''                        let wrap: &dyn Fn(Gap) -> EntitySubmessage = &EntitySubmessage::Gap;
                        let gap = Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )?;
                        Ok(Some(wrap(gap)))''')]),
('=boxed',['C07','C08','C01'],[(RE,GAPS,'''                        let gap: Box<Gap> = Box::new(Gap::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),
                            &bytes,
                        )?);
                        Ok(Some(EntitySubmessage::Gap(*gap)))''')]),
('=transpose',['C07','C08'],[(RE,GAPS,'''                        Some(
                            Gap::read_from_buffer_owned_with_ctx(
                                submessage_header.flags.endianness_flag(),
                                &bytes,
                            )
                            .map(EntitySubmessage::Gap)
                            .map_err(Error::from),
                        )
                        .transpose()''')]),
('=while-let',ALL,[(RE,LOOP,'''        let mut available = bytes.len();
        let mut result = self.decode_next(bytes);
        while let Ok(None) = result {
            if bytes.len() == available {
                break;
            }
            available = bytes.len();
            result = self.decode_next(bytes);
        }
        if result.is_err() {
            bytes.clear();
            self.state = DeserializationState::ReadingHeader;
        }
        result''')]),
('=labelled',ALL,[(RE,LOOP,'''        let result = 'submessages: loop {
            let before = bytes.len();
            let result = self.decode_next(bytes);
            match &result {
                Ok(None) => {
                    if before > bytes.len() {
                        continue 'submessages;
                    }
                }
                Ok(Some(_)) => {}
                Err(_) => {
                    self.state = DeserializationState::ReadingHeader;
                    bytes.truncate(0);
                }
            }
            break 'submessages result;
        };
        result''')]),
('=inspect-err',ALL,[(RE,LOOP,'''        loop {
            let available = bytes.len();
            let item = self.decode_next(bytes).map_err(|err| {
                bytes.clear();
                err
            });
            if item.is_err() {
                self.state = DeserializationState::ReadingHeader;
            }
            let item = item?;
            if item.is_some() || bytes.len() == available {
                return Ok(item);
            }
        }''')]),
('first-only',['C08','C07'],[(RE,LOOP,'''        let mut decoded = 0;
        loop {
            let available = bytes.len();
            match self.decode_next(bytes) {
                Ok(None) if bytes.len() < available && decoded < 255 => decoded += 1,
                Ok(item) => return Ok(item),
                Err(err) => {
                    bytes.clear();
                    self.state = DeserializationState::ReadingHeader;
                    return Err(err);
                }
            }
        }''')]),
('wrap-count',['C01'],[(RE,LOOP,LOOP.replace('        loop {\n','        let mut submessages = 0u16;\n        loop {\n',1).replace('=> continue','=> submessages += 1'))]),
('eof-pad',['C08','C03'],[(RE,'            if !bytes.is_empty() {\n                bytes.clear();\n                return Err(','            if bytes.len() >= 4 {\n                bytes.clear();\n                return Err(')]),
('=eof-take',['C03','C08','C05'],[(RE,EOF,'''        match self.decode(bytes)? {
            Some(item) => Ok(Some(item)),
            None => {
                self.state = DeserializationState::ReadingHeader;
                let rest = bytes.split();
                if rest.is_empty() {
                    Ok(None)
                } else {
                    Err(Error::new(ErrorKind::UnexpectedEof, "Truncated message"))
                }
            }
        }''')]),
('cap-on-drop',['C18'],[(HC,'self.changes.push(change)','let guard = Limit(&mut self.changes);\n        guard.0.push(change)'),(HC,'struct HistoryCache {','''struct Limit<'a>(&'a mut Vec<CacheChange>);

impl<'a> Drop for Limit<'a> {
    fn drop(&mut self) {
        if self.0.len() > 100 {
            self.0.remove(0);
        }
    }
}

struct HistoryCache {''')]),
]
