# hand-written versions of what is derived, and other readers of the small types
HB='messages/heartbeat.rs'; GA='messages/gap.rs'; FN='messages/fragment_number.rs'; GP='structure/guid_prefix.rs'; IH='structure/instance_handle.rs'; PI='messages/protocol_id.rs'
TK='structure/topic_kind.rs'; LK='structure/locator_kind.rs'; CO='structure/count.rs'; VE='messages/vendor_id.rs'; HD='messages/header.rs'; RE='messages/receiver.rs'
HBD='''#[derive(Debug, PartialEq, Readable, Writable)]
pub struct Heartbeat {'''
def hb(body, w=None):
    e=[(HB,HBD,'''impl<'a, C: speedy::Context> Readable<'a, C> for Heartbeat {
    fn read_from<R: speedy::Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
%s    }
    fn minimum_bytes_needed() -> usize {
        28
    }
}

#[derive(Debug, PartialEq, Writable)]
pub struct Heartbeat {''' % body)]
    return e
READ='''        let reader_id = reader.read_value()?;
        let writer_id = reader.read_value()?;
        let first_sn = reader.read_value()?;
        let last_sn = reader.read_value()?;
        let count = reader.read_value()?;
'''
OUT='''        Ok(Heartbeat {
            reader_id,
            writer_id,
            first_sn,
            last_sn,
            count,
        })
'''
FR='''        for i in 0..guid_prefix.entity_key.len() {
            guid_prefix.entity_key[i] = reader.read_u8()?;
        }
'''
TKD='''#[derive(Debug, PartialEq, Eq, Readable, Writable)]
#[speedy(tag_type = u32)]
pub enum TopicKind_t {'''
NUM='''    NumOps,
    FromPrimitive,'''
LKD='''#[derive(Copy, Clone, Debug, Eq, PartialEq, Readable, Writable)]
#[speedy(tag_type = u32)]
pub enum LocatorKind_t {'''
def ops(add, sub):
    rest=''.join('''
impl std::ops::%s for FragmentNumber_t {
    type Output = Self;
    fn %s(self, other: Self) -> Self {
        %s
    }
}
''' % (T, t, e) for T,t,e in (('Add','add',add),('Sub','sub',sub),('Mul','mul','FragmentNumber_t(self.0 * other.0)'),('Div','div','FragmentNumber_t(self.0 / other.0)'),('Rem','rem','FragmentNumber_t(self.0 % other.0)')))
    return [(FN,NUM,'    FromPrimitive,'),(FN,'impl Default for FragmentNumber_t {', rest.strip()+'\n\nimpl Default for FragmentNumber_t {')]
VAL='''        !(self.protocol_id != ProtocolId_t::PROTOCOL_RTPS
            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)'''
M=[
('=hb-hand',['C07','C08','C10','C01','C12'],hb(READ+OUT)),
('=hb-direct',['C07','C10'],hb(OUT.replace('reader_id,','reader_id: reader.read_value()?,').replace('writer_id,','writer_id: reader.read_value()?,').replace('first_sn,','first_sn: reader.read_value()?,').replace('last_sn,','last_sn: reader.read_value()?,').replace(' count,',' count: reader.read_value()?,'))),
('hb-swap-if',['C10','C07'],hb(READ.replace('let first_sn','let first_sn: SequenceNumber_t').replace('let last_sn','let last_sn: SequenceNumber_t')+'        let (first_sn, last_sn) = if last_sn < first_sn { (last_sn, first_sn) } else { (first_sn, last_sn) };\n'+OUT)),
('hb-abs-count',['C10','C07'],hb(READ.replace('let count','let count: Count_t')+'        let count = Count_t::from(i32::from(count) & 0x7fff_ffff);\n'+OUT)),
('hb-eq',['C25'],[(HB,HBD,'''impl PartialEq for Heartbeat {
    fn eq(&self, other: &Self) -> bool {
        self.reader_id == other.reader_id
            && self.writer_id == other.writer_id
            && self.first_sn == other.first_sn
            && self.last_sn == other.last_sn
    }
}

#[derive(Debug, Readable, Writable)]
pub struct Heartbeat {''')]),
('=hb-eq',['C25'],[(HB,HBD,'''impl PartialEq for Heartbeat {
    fn eq(&self, other: &Self) -> bool {
        if self.reader_id != other.reader_id || self.writer_id != other.writer_id {
            return false;
        }
        (self.first_sn, self.last_sn) == (other.first_sn, other.last_sn) && self.count == other.count
    }
}

#[derive(Debug, Readable, Writable)]
pub struct Heartbeat {''')]),
('=gp-bytes',['C04','C06','C10','C25'],[(GP,FR,'        reader.read_bytes(&mut guid_prefix.entity_key)?;\n')]),
('=gp-iter',['C04','C06','C10'],[(GP,FR,'        for octet in guid_prefix.entity_key.iter_mut() {\n            *octet = reader.read_u8()?;\n        }\n')]),
('=gp-words',['C06','C10'],[(GP,FR,'''        for chunk in guid_prefix.entity_key.chunks_mut(4) {
            reader.read_bytes(chunk)?;
        }
''')]),
('gp-words',['C06','C10'],[(GP,FR,'''        for chunk in guid_prefix.entity_key.chunks_mut(4) {
            let word = reader.read_u32()?;
            chunk.copy_from_slice(&word.to_be_bytes());
        }
''')]),
('=gp-write',['C10','C11'],[(GP,'''        for elem in &self.entity_key {
            writer.write_u8(*elem)?
        }
        Ok(())''','        writer.write_bytes(&self.entity_key)')]),
('=ih-write',['C10','C11'],[(IH,'''        for elem in &self.entity_key {
            writer.write_u8(*elem)?;
        }
        Ok(())''','        writer.write_slice(&self.entity_key)')]),
('=pi-read',['C04','C10'],[(PI,'''        for i in 0..protocol_id.protocol_id.len() {
            protocol_id.protocol_id[i] = reader.read_u8()? as char;
        }
''','''        for c in &mut protocol_id.protocol_id {
            *c = char::from(reader.read_u8()?);
        }
''')]),
('=pi-write',['C10','C11'],[(PI,'''        for elem in &self.protocol_id {
            writer.write_u8(*elem as u8)?
        }
        Ok(())''','''        self.protocol_id
            .iter()
            .try_for_each(|elem| writer.write_u8(*elem as u8))''')]),
('=tk-hand',['C10','C11'],[(TK,TKD,'''impl<'a, C: speedy::Context> Readable<'a, C> for TopicKind_t {
    fn read_from<R: speedy::Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
        match reader.read_u32()? {
            1 => Ok(TopicKind_t::NO_KEY),
            2 => Ok(TopicKind_t::WITH_KEY),
            other => Err(speedy::Error::custom(format!("topic kind {}", other)).into()),
        }
    }
    fn minimum_bytes_needed() -> usize {
        4
    }
}

#[derive(Debug, PartialEq, Eq, Writable)]
#[speedy(tag_type = u32)]
pub enum TopicKind_t {''')]),
('tk-lenient',['C10','C11','C01'],[(TK,TKD,'''impl<'a, C: speedy::Context> Readable<'a, C> for TopicKind_t {
    fn read_from<R: speedy::Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
        match reader.read_u32()? as u8 {
            1 => Ok(TopicKind_t::NO_KEY),
            2 => Ok(TopicKind_t::WITH_KEY),
            _ => unreachable!(),
        }
    }
    fn minimum_bytes_needed() -> usize {
        4
    }
}

#[derive(Debug, PartialEq, Eq, Writable)]
#[speedy(tag_type = u32)]
pub enum TopicKind_t {''')]),
('=fn-ops',['C16','C13','C07'],ops('FragmentNumber_t(self.0 + other.0)','FragmentNumber_t(self.0 - other.0)')),
('=fn-ops-expect',['C16','C13'],ops('FragmentNumber_t(self.0.checked_add(other.0).expect("overflow"))','FragmentNumber_t(self.0.checked_sub(other.0).expect("overflow"))')),
('fn-ops-wrap',['C16'],ops('FragmentNumber_t(self.0.wrapping_add(other.0))','FragmentNumber_t(self.0.wrapping_sub(other.0))')),
('fn-ops-sat',['C16'],ops('FragmentNumber_t(self.0.saturating_add(other.0))','FragmentNumber_t(self.0 - other.0)')),
('=hd-valid-fn',['C04','C26'],[(HD,VAL,'        self.protocol_id.valid() && self.protocol_version.major <= ProtocolVersion_t::PROTOCOLVERSION.major')]),
('hd-valid-u8',['C04','C26'],[(HD,VAL,'        self.protocol_id.valid() && (self.protocol_version.major as i8) <= ProtocolVersion_t::PROTOCOLVERSION.major as i8')]),
('=hd-new',['C26'],[(HD,'''        Header {
            protocol_id: ProtocolId_t::PROTOCOL_RTPS,''','''        Header {
            protocol_id: Default::default(),''')]),
]
