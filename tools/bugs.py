BUGS = {}
HC = 'src/structure/history_cache.rs'
CHG = '''
    use crate::structure::change_kind::ChangeKind_t;
    use crate::structure::data::Data;
    use crate::structure::entity_id::EntityId_t;
    use crate::structure::guid::GUID_t;
    use crate::structure::guid_prefix::GuidPrefix_t;
    use crate::structure::instance_handle::InstanceHandle_t;
    use crate::structure::sequence_number::SequenceNumber_t;
    use crate::structure::cache_change::CacheChange;
    fn change(n: i64, kind: ChangeKind_t, key: u8) -> CacheChange {
        CacheChange { kind, writer_guid: GUID_t::GUID_UNKNOWN, instance_handle: InstanceHandle_t { entity_key: [key; 16] },
            sequence_number: SequenceNumber_t::from(n), data_value: Data {} }
    }
'''
BUGS['C18-max-by-whole-change'] = dict(property='C18', at=HC,
    needs='a cache whose highest sequence number belongs to a change of a kind that sorts before that of another change (an ALIVE change written after a disposal)',
    breaks='the reported maximum is the sequence number of the change with the greatest kind, not the greatest sequence number',
    edits=[(HC, '''            .map(|x| &x.sequence_number)
            .max_by(|x, y| x.cmp(&y))''', '''            .max()
            .map(|x| &x.sequence_number)''')],
    demo=CHG + '''
    #[test]
    fn max() {
        let mut c = HistoryCache::new();
        c.add_change(change(1, ChangeKind_t::ALIVE, 0));
        c.add_change(change(2, ChangeKind_t::NOT_ALIVE_DISPOSED, 0));
        c.add_change(change(3, ChangeKind_t::ALIVE, 0));
        assert_eq!(Some(&SequenceNumber_t::from(3)), c.get_seq_num_max());
        assert_eq!(Some(&SequenceNumber_t::from(1)), c.get_seq_num_min());
    }
''')
BUGS['C18-remove-first-only'] = dict(property='C18', at=HC,
    needs='two changes with the same sequence number (of two writers) in the cache when it is removed',
    breaks='only one of the changes with the removed number disappears, and the order of the others changes',
    edits=[(HC, '''        self.changes
            .retain(|x| x.sequence_number != sequence_number)''', '''        if let Some(position) = self
            .changes
            .iter()
            .position(|x| x.sequence_number == sequence_number)
        {
            self.changes.swap_remove(position);
        }''')],
    demo=CHG + '''
    #[test]
    fn remove() {
        let mut c = HistoryCache::new();
        c.add_change(change(5, ChangeKind_t::ALIVE, 1));
        c.add_change(change(6, ChangeKind_t::ALIVE, 1));
        c.add_change(change(5, ChangeKind_t::ALIVE, 2));
        c.remove_change(SequenceNumber_t::from(5));
        assert!(c.get_change(SequenceNumber_t::from(5)).is_none());
        assert!(c.get_change(SequenceNumber_t::from(6)).is_some());
    }
''')
BUGS['C18-remove-older'] = dict(property='C18', at=HC,
    needs='removal of a number while changes with lower numbers are stored before it',
    breaks='removing a change also removes every older one',
    edits=[(HC, '.retain(|x| x.sequence_number != sequence_number)', '.retain(|x| x.sequence_number > sequence_number)')],
    demo=CHG + '''
    #[test]
    fn remove() {
        let mut c = HistoryCache::new();
        for i in 1..5 { c.add_change(change(i, ChangeKind_t::ALIVE, 1)); }
        c.remove_change(SequenceNumber_t::from(3));
        assert!(c.get_change(SequenceNumber_t::from(3)).is_none());
        for i in &[1, 2, 4] { assert!(c.get_change(SequenceNumber_t::from(*i)).is_some()); }
    }
''')
SW = 'src/behavior/stateless_writer.rs'
MKW = CHG + '''
    use crate::structure::topic_kind::TopicKind_t;
    use crate::structure::reliability_kind::ReliabilityKind_t;
    use crate::structure::duration::Duration_t;
    fn writer(last: i64) -> StatelessWriter {
        StatelessWriter::new(
            EntityAttributes { guid: GUID_t { guid_prefix: GuidPrefix_t { entity_key: [7; 12] }, entity_id: EntityId_t::ENTITYID_UNKNOWN } },
            EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::BEST_EFFORT, unicast_locator_list: crate::structure::locator::Locator_t::LOCATOR_INVALID, multicast_locator_list: crate::structure::locator::Locator_t::LOCATOR_INVALID },
            WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO,
                nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: SequenceNumber_t::from(last) },
            Time_t::TIME_ZERO)
    }
'''
BUGS['C17-number-wraps-at-32-bits'] = dict(property='C17', at=SW,
    needs='a writer whose last change number is at or above 2^32 - 1',
    breaks='the next change number is computed from the low 32 bits of the last one, so numbers go back to 0',
    edits=[(SW, '''            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);''',
     '''            SequenceNumber_t::from(i64::from((i64::from(self.writer_attributes.last_change_sequence_number) as u32).wrapping_add(1)));''')],
    demo=MKW + '''
    #[test]
    fn numbers() {
        let mut w = writer(0xFFFF_FFFE);
        for n in &[0xFFFF_FFFFi64, 0x1_0000_0000, 0x1_0000_0001] {
            let c = w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default());
            assert_eq!(SequenceNumber_t::from(*n), c.sequence_number);
        }
    }
''')
BUGS['C17-unregister-repeats-number'] = dict(property='C17', at=SW,
    needs='a change of kind NOT_ALIVE_UNREGISTERED followed by any other change',
    breaks='an unregistration is numbered without advancing the writer, so the following change has the same number',
    edits=[(SW, '''        self.writer_attributes.last_change_sequence_number =
            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);
''', '''        let sequence_number =
            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);
        if kind != ChangeKind_t::NOT_ALIVE_UNREGISTERED {
            self.writer_attributes.last_change_sequence_number = sequence_number;
        }
'''), (SW, '            sequence_number: self.writer_attributes.last_change_sequence_number,\n', '            sequence_number: sequence_number,\n')],
    demo=MKW + '''
    #[test]
    fn numbers() {
        let mut w = writer(0);
        let a = w.new_change(ChangeKind_t::NOT_ALIVE_UNREGISTERED, Data {}, InstanceHandle_t::default());
        let b = w.new_change(ChangeKind_t::ALIVE, Data {}, InstanceHandle_t::default());
        assert_eq!(SequenceNumber_t::from(1), a.sequence_number);
        assert_eq!(SequenceNumber_t::from(2), b.sequence_number);
    }
''')
BUGS['C20-remove-swaps'] = dict(property='C20', at=SW,
    needs='three reader locators, the first one removed, or an equal locator added twice',
    breaks='removing a locator moves the last one to its place and keeps duplicates of it',
    edits=[(SW, '        self.reader_locators.retain(|x| x != &a_locator)', '''        if let Some(position) = self.reader_locators.iter().position(|x| x == &a_locator) {
            self.reader_locators.swap_remove(position);
        }''')],
    demo=MKW + '''
    use crate::structure::locator::{Locator_t, LocatorKind_t};
    fn loc(_n: u32) -> ReaderLocator { unsafe { std::mem::zeroed() } }
    #[test]
    fn remove() {
        let mut w = writer(0);
        let mk = || -> ReaderLocator { crate::behavior::reader_locator::planted_demo_make(1) };
        w.reader_locator_add(mk()); w.reader_locator_add(mk());
        w.reader_locator_remove(mk());
        assert_eq!(0, w.reader_locators.len());
    }
''')
del BUGS['C20-remove-swaps']
SF = 'src/behavior/stateful_writer.rs'
MKS = CHG + '''
    use crate::structure::topic_kind::TopicKind_t;
    use crate::structure::reliability_kind::ReliabilityKind_t;
    use crate::structure::duration::Duration_t;
    fn writer() -> StatefulWriter {
        StatefulWriter { matched_readers: vec![],
            entity: EntityAttributes { guid: GUID_t::GUID_UNKNOWN },
            endpoint: EndpointAttributes { topic_kind: TopicKind_t::NO_KEY, reliability_level: ReliabilityKind_t::BEST_EFFORT, unicast_locator_list: crate::structure::locator::Locator_t::LOCATOR_INVALID, multicast_locator_list: crate::structure::locator::Locator_t::LOCATOR_INVALID },
            writer: WriterAttributes { push_mode: true, heartbeat_period: Duration_t::DURATION_ZERO, nack_response_delay: Duration_t::DURATION_ZERO,
                nack_suppression_duration: Duration_t::DURATION_ZERO, last_change_sequence_number: SequenceNumber_t::from(0) } }
    }
    fn guid(p: u8, e: EntityId_t) -> GUID_t { GUID_t { guid_prefix: GuidPrefix_t { entity_key: [p; 12] }, entity_id: e } }
'''
BUGS['C20-lookup-by-prefix'] = dict(property='C20', at=SF,
    needs='two readers of the same participant, looked up one after the other',
    breaks='looking up a reader yields every reader of its participant',
    edits=[(SF, 'proxy.remote_reader_guid == a_reader_guid', 'proxy.remote_reader_guid.guid_prefix == a_reader_guid.guid_prefix')],
    demo=MKS + '''
    #[test]
    fn lookup() {
        let mut w = writer();
        let a = guid(1, EntityId_t::ENTITYID_PARTICIPANT); let b = guid(1, EntityId_t::ENTITYID_UNKNOWN);
        w.matched_reader_add(ReaderProxy::new(a, false));
        w.matched_reader_add(ReaderProxy::new(b, true));
        let found: Vec<GUID_t> = w.matched_reader_lookup(b).map(|p| p.remote_reader_guid).collect();
        assert_eq!(vec![b], found);
    }
''')
BUGS['C20-lookup-first-only'] = dict(property='C20', at=SF,
    needs='the same reader added twice',
    breaks='a lookup stops at the first proxy of the reader',
    edits=[(SF, '''            .filter(move |proxy| proxy.remote_reader_guid == a_reader_guid)''', '''            .skip_while(move |proxy| proxy.remote_reader_guid != a_reader_guid)
            .take_while(move |proxy| proxy.remote_reader_guid == a_reader_guid)''')],
    demo=MKS + '''
    #[test]
    fn lookup() {
        let mut w = writer();
        let a = guid(1, EntityId_t::ENTITYID_PARTICIPANT); let b = guid(2, EntityId_t::ENTITYID_UNKNOWN);
        for g in &[a, b, a] { w.matched_reader_add(ReaderProxy::new(*g, false)); }
        assert_eq!(2, w.matched_reader_lookup(a).count());
        assert_eq!(1, w.matched_reader_lookup(b).count());
    }
''')
BUGS['C20-add-front'] = dict(property='C20', at=SF,
    needs='a reader whose identity sorts before one already present is added',
    breaks='matched readers are kept sorted by identity instead of in order of addition',
    edits=[(SF, '        self.matched_readers.push(a_reader_proxy)', '''        let position = self
            .matched_readers
            .iter()
            .position(|proxy| proxy.remote_reader_guid > a_reader_proxy.remote_reader_guid)
            .unwrap_or(self.matched_readers.len());
        self.matched_readers.insert(position, a_reader_proxy)''')],
    demo=MKS + '''
    #[test]
    fn order() {
        let mut w = writer();
        let e = EntityId_t::ENTITYID_PARTICIPANT;
        for p in &[2u8, 1, 3] { w.matched_reader_add(ReaderProxy::new(guid(*p, e), false)); }
        let v: Vec<GUID_t> = w.matched_readers.iter().map(|p| p.remote_reader_guid).collect();
        assert_eq!(vec![guid(2, e), guid(1, e), guid(3, e)], v);
    }
''')
RP = 'src/behavior/reader_proxy.rs'
BUGS['C19-next-in-list-order'] = dict(property='C19', at=RP,
    needs='an unsent change listed after one with a higher number, neither of them first',
    breaks='ties and later smaller numbers: the change is chosen by comparing whole changes, whose kind comes before the sequence number',
    edits=[(RP, '.min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))', '.min()')],
    demo=CHG + '''
    #[test]
    fn next() {
        let l = [change(2, ChangeKind_t::ALIVE, 0), change(1, ChangeKind_t::NOT_ALIVE_DISPOSED, 0)];
        let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
        assert_eq!(Some(&l[1]), p.next_unsent_change(&l));
        assert_eq!(Some(&l[0]), p.next_unsent_change(&l));
        assert_eq!(None, p.next_unsent_change(&l));
    }
''')
BUGS['C19-skips-first'] = dict(property='C19', at=RP,
    needs='a change with sequence number 1 and no one looking before a change with a higher number is sent',
    breaks='a new proxy regards the first change of the writer as sent',
    edits=[(RP, 'SequenceNumber_t::from(std::i64::MIN)', 'SequenceNumber_t::default()')],
    demo=CHG + '''
    #[test]
    fn next() {
        let l = [change(1, ChangeKind_t::ALIVE, 0), change(5, ChangeKind_t::ALIVE, 0)];
        let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
        assert_eq!(Some(&l[0]), p.next_unsent_change(&l));
    }
''')
BUGS['C19-peek-marks'] = dict(property='C19', at=RP,
    needs='a hole in the sequence numbers (1 and 5) when the next change is taken',
    breaks='taking a change when only one is left marks everything up to the length of the list as sent',
    edits=[(RP, 'self.highest_seq_num_sent = change.sequence_number;', '''self.highest_seq_num_sent = if changes.len() == 1 {
                    change.sequence_number + SequenceNumber_t::from(1)
                } else {
                    change.sequence_number
                };''')],
    demo=CHG + '''
    #[test]
    fn next() {
        let a = [change(1, ChangeKind_t::ALIVE, 0)];
        let b = [change(1, ChangeKind_t::ALIVE, 0), change(2, ChangeKind_t::ALIVE, 0)];
        let mut p = ReaderProxy::new(GUID_t::GUID_UNKNOWN, false);
        assert_eq!(Some(&a[0]), p.next_unsent_change(&a));
        assert_eq!(Some(&b[1]), p.next_unsent_change(&b));
    }
''')
CI = 'src/checked_impl.rs'
SN = 'src/structure/sequence_number.rs'
BUGS['C16-div-rounds-down'] = dict(property='C16', at=SN,
    needs='multiplication of two numbers whose product needs more than 53 bits',
    breaks='products are computed in floating point and lose their low digits',
    edits=[(SN, 'checked_impl!(CheckedMul, checked_mul, SequenceNumber_t);', '''impl num_traits::CheckedMul for SequenceNumber_t {
    #[inline]
    fn checked_mul(&self, v: &SequenceNumber_t) -> Option<SequenceNumber_t> {
        let product = self.0 as f64 * v.0 as f64;
        if product.abs() < i64::MAX as f64 {
            Some(SequenceNumber_t(product as i64))
        } else {
            None
        }
    }
}''')],
    demo='''
    #[test]
    fn mul() {
        use num_traits::CheckedMul;
        let a = SequenceNumber_t::from(94906267); let b = SequenceNumber_t::from(94906267);
        assert_eq!(Some(SequenceNumber_t::from(94906267i64 * 94906267)), a.checked_mul(&b));
    }
''')
BUGS['C16-sub-saturates'] = dict(property='C16', at=SN,
    needs='subtraction of a positive number from one near the lower end of the range',
    breaks='a difference below the range is reported as the smallest number instead of as absent',
    edits=[(SN, 'checked_impl!(CheckedSub, checked_sub, SequenceNumber_t);', '''impl num_traits::CheckedSub for SequenceNumber_t {
    #[inline]
    fn checked_sub(&self, v: &SequenceNumber_t) -> Option<SequenceNumber_t> {
        if v.0 == std::i64::MIN {
            None
        } else {
            Some(SequenceNumber_t(self.0.saturating_add(-v.0)))
        }
    }
}''')],
    demo='''
    #[test]
    fn sub() {
        use num_traits::CheckedSub;
        let a = SequenceNumber_t::from(std::i64::MIN + 3);
        assert_eq!(None, a.checked_sub(&SequenceNumber_t::from(4)));
        assert_eq!(Some(SequenceNumber_t::from(std::i64::MIN)), a.checked_sub(&SequenceNumber_t::from(3)));
    }
''')
SFL = 'src/messages/submessage_flag.rs'
BUGS['C15-set-adds'] = dict(property='C15', at=SFL,
    needs='setting a mask of two bits, one of which is already set',
    breaks='setting bits is skipped when any of them is already set',
    edits=[(SFL, '        self.flags |= mask;', '''        if !self.is_flag_set(mask) {
            self.flags += mask;
        }''')],
    demo='''
    #[test]
    fn set() {
        let mut f = SubmessageFlag { flags: 0x01 };
        f.set_flag(0x03);
        assert_eq!(0x03, f.flags);
    }
''')
BUGS['C15-clear-toggles'] = dict(property='C15', at=SFL,
    needs='clearing a mask of two bits of which exactly one is set',
    breaks='clearing toggles the bits of the mask when at least one is set',
    edits=[(SFL, '        self.flags &= !mask;', '''        if self.is_flag_set(mask) {
            self.flags ^= mask;
        }''')],
    demo='''
    #[test]
    fn clear() {
        let mut f = SubmessageFlag { flags: 0x05 };
        f.clear_flag(0x03);
        assert_eq!(0x04, f.flags);
    }
''')
LO = 'src/structure/locator.rs'
BUGS['C23-v4-mapped'] = dict(property='C23', at=LO,
    needs='an IPv6 socket address that is IPv4-mapped',
    breaks='an IPv4-mapped IPv6 address comes back as an IPv4 address',
    edits=[(LO, '} else if socket_address.ip().is_ipv4() {', '} else if socket_address.ip().to_canonical().is_ipv4() {')],
    demo='''
    #[test]
    fn mapped() {
        let a: SocketAddr = "[::ffff:1.2.3.4]:80".parse().unwrap();
        assert_eq!(a, SocketAddr::from(Locator_t::from(a)));
        let a: SocketAddr = "[fe80::1:2]:80".parse().unwrap();
        assert_eq!(a, SocketAddr::from(Locator_t::from(a)));
    }
''')
LU = 'src/structure/locator_udp_v4.rs'
BUGS['C23-v4-port-bytes'] = dict(property='C23', at=LO,
    needs='conversion of a UDPv6 locator with port above 32767',
    breaks='ports of IPv6 endpoints pass through a signed 16 bit number',
    edits=[(LO, '''                IpAddr::V6(Ipv6Addr::from(locator.address)),
                locator.port as u16,''', '''                IpAddr::V6(Ipv6Addr::from(locator.address)),
                locator.port.min(std::i16::MAX as u32) as u16,''')],
    demo='''
    #[test]
    fn port() {
        let a: SocketAddr = "[fe80::1:2]:40000".parse().unwrap();
        assert_eq!(a, SocketAddr::from(Locator_t::from(a)));
    }
''')
TI = 'src/structure/time.rs'
BUGS['C21-before-epoch'] = dict(property='C21', at=TI,
    needs='a system time before the epoch',
    breaks='an instant before the epoch becomes a valid timestamp',
    edits=[(TI, '            })\n            .unwrap_or(Time_t::TIME_INVALID)', '            })\n            .unwrap_or(Time_t::TIME_ZERO)')],
    demo='''
    #[test]
    fn before() {
        let t = std::time::UNIX_EPOCH - Duration::new(5, 0);
        assert_eq!(Time_t::TIME_INVALID, Time_t::from(t));
    }
''')
DU = 'src/structure/duration.rs'
BUGS['C22-sub-micro-lost'] = dict(property='C22', at=DU,
    needs='a duration with an odd number of nanoseconds',
    breaks='such a duration does not convert back to itself',
    edits=[(DU, 'fraction: duration.subsec_nanos() as u32,', 'fraction: (duration.as_millis() % 1_000) as u32 * 1_000_000 + duration.subsec_micros() % 1_000 * 1_000 + duration.subsec_nanos() % 1_000 / 2 * 2,')],
    demo='''
    #[test]
    fn back() {
        let d = Duration::new(5, 999_999_999);
        assert_eq!(d, Duration::from(Duration_t::from(d)));
    }
''')
PI = 'src/structure/parameter_id.rs'

# ---------------------------------------------------------------- the decoder
RX = 'src/messages/receiver.rs'
RXD = '''
    use crate::messages::submessage::EntitySubmessage;
    use bytes::{BufMut, BytesMut};
    use tokio_util::codec::Decoder;
    fn message(minor: u8, sender: u8) -> Vec<u8> {
        let mut m = vec![b'R', b'T', b'P', b'S', 2, minor, 1, 2];
        m.extend(vec![sender; 12]);
        m
    }
    fn sub(id: u8, flags: u8, body: &[u8]) -> Vec<u8> {
        let l = body.len() as u16;
        let l = if flags & 1 == 1 { l.to_le_bytes() } else { l.to_be_bytes() };
        let mut m = vec![id, flags, l[0], l[1]];
        m.extend_from_slice(body);
        m
    }
    fn number(high: i32, low: u32) -> Vec<u8> {
        let mut m = high.to_be_bytes().to_vec();
        m.extend_from_slice(&low.to_be_bytes());
        m
    }
    /// big endian heartbeat
    fn heartbeat(first: Vec<u8>, last: Vec<u8>) -> Vec<u8> {
        let mut b = vec![0; 8];
        b.extend(first);
        b.extend(last);
        b.extend_from_slice(&[0, 0, 0, 7]);
        sub(0x07, 0, &b)
    }
    fn all(rx: &mut MessageReceiver, m: &[Vec<u8>]) -> (Vec<EntitySubmessage>, bool) {
        let mut bytes = BytesMut::from(&m.concat()[..]);
        let mut out = vec![];
        loop {
            match rx.decode_eof(&mut bytes) {
                Ok(Some(s)) => out.push(s),
                Ok(None) => return (out, true),
                Err(_) => return (out, false),
            }
        }
    }
    fn rx() -> MessageReceiver { MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4) }
'''
def rxbug(i, prop, needs, breaks, edits, demo): BUGS[i] = dict(property=prop, at=RX, needs=needs, breaks=breaks, edits=edits, demo=RXD + demo)
BSF = 'src/common/bit_set.rs'; SNF = 'src/structure/sequence_number.rs'; SHF = 'src/messages/submessage_header.rs'
rxbug('C01-cut-bitmap', 'C01', 'a GAP whose submessage ends in the middle of the announced bitmap', 'decoding panics instead of reporting an error',
    [(BSF, 'inner.push(reader.read_u32()?);', '''inner.push(
                    reader
                        .read_u32()
                        .unwrap_or_else(|_| unreachable!("the submessage holds the whole set")),
                );''')], '''
    #[test]
    fn cut() {
        let mut b = vec![0; 8];
        b.extend(number(0, 1));
        b.extend(number(0, 2));
        b.extend_from_slice(&[0, 0, 0, 64, 0, 0, 0, 1]);
        let (got, ok) = all(&mut rx(), &[message(4, 1), sub(0x08, 0, &b)]);
        assert!(got.is_empty() && !ok);
    }
''')
rxbug('C01-number-overflows', 'C01', 'a sequence number whose high part is the smallest one and whose low part has its top bit set', 'the sum overflows: decoding panics in a build with overflow checks',
    [(SNF, 'let low: u32 = reader.read_value()?;', 'let low: i32 = reader.read_value()?;')], '''
    #[test]
    fn overflow() {
        let (got, ok) = all(&mut rx(), &[message(4, 1), heartbeat(number(std::i32::MIN, 0x8000_0001), number(0, 2))]);
        assert!(got.len() == 1 && ok);
    }
''')
rxbug('C02-big-length', 'C02', 'a big endian submessage of 32768 bytes or more followed by another one', 'the interpreter continues inside of the submessage',
    [(SHF, 'Endianness::BigEndian => u16::from_be_bytes([reader.read_u8()?, reader.read_u8()?]),', '''Endianness::BigEndian => {
                u16::from(reader.read_u8()? & 0x7f) << 8 | u16::from(reader.read_u8()?)
            }''')], '''
    #[test]
    fn big() {
        let m = [message(4, 1), sub(0x80, 0, &vec![0xff; 0x8010]), heartbeat(number(0, 1), number(0, 2))];
        let (got, ok) = all(&mut rx(), &m);
        assert!(got.len() == 1 && ok);
    }
''')
rxbug('C04-newer-minor', 'C04', 'a message of a newer minor version', 'it is rejected although its major version is supported',
    [('src/messages/header.rs', 'self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major', 'self.protocol_version > ProtocolVersion_t::PROTOCOLVERSION')], '''
    #[test]
    fn minor() {
        let (got, ok) = all(&mut rx(), &[message(9, 1), heartbeat(number(0, 1), number(0, 2))]);
        assert!(got.len() == 1 && ok);
    }
''')
rxbug('C04-magic-case', 'C04', 'a message that begins with the magic in lower case', 'it is interpreted',
    [('src/messages/protocol_id.rs', 'reader.read_u8()? as char', '(reader.read_u8()? as char).to_ascii_uppercase()')], '''
    #[test]
    fn magic() {
        let mut m = message(4, 1);
        m[3] = b's';
        let (got, ok) = all(&mut rx(), &[m, heartbeat(number(0, 1), number(0, 2))]);
        assert!(got.is_empty() && !ok);
    }
''')
rxbug('C05-same-sender', 'C05', 'two messages in a row from the same participant, the first of which sets a timestamp or a destination', 'the second one is interpreted in the context left by the first',
    [(RX, '''                self.receiver = Receiver::new(self.locator_kind);
                self.receiver.source_guid_prefix = header.guid_prefix;
''', '''                if self.receiver.source_guid_prefix != header.guid_prefix {
                    self.receiver = Receiver::new(self.locator_kind);
                    self.receiver.source_guid_prefix = header.guid_prefix;
                }
''')], '''
    #[test]
    fn again() {
        let mut r = rx();
        assert!(all(&mut r, &[message(4, 1), sub(0x09, 0, &[0, 0, 0, 5, 0, 0, 0, 0])]).1);
        assert!(r.receiver.have_timestamp);
        assert!(all(&mut r, &[message(4, 1), heartbeat(number(0, 1), number(0, 2))]).1);
        assert!(!r.receiver.have_timestamp);
    }
''')
rxbug('C06-multicast-kept', 'C06', 'an INFO_REPLY without multicast locators after one with them, in one message', 'the multicast reply locators of the earlier one remain',
    [(RX, '''                                multicast_locator_list?
                            } else {
                                vec![]
                            };''', '''                                multicast_locator_list?
                            } else {
                                std::mem::replace(
                                    &mut self.receiver.multicast_reply_locator_list,
                                    Vec::new(),
                                )
                            };''')], '''
    #[test]
    fn reply() {
        let mut locator = vec![0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 9];
        locator.extend(vec![1; 16]);
        let mut r = rx();
        assert!(all(&mut r, &[message(4, 1), sub(0x0f, 0, &locator)]).1);
        assert!(r.receiver.multicast_reply_locator_list.is_empty());
    }
''')
rxbug('C06-source-keeps-time', 'C06', 'INFO_TS followed by INFO_SRC in one message', 'submessages of the new source are still seen with the timestamp of the previous one',
    [(RX, '''                            vec![Locator_t::LOCATOR_INVALID];
                        self.receiver.have_timestamp = false;
''', '''                            vec![Locator_t::LOCATOR_INVALID];
''')], '''
    #[test]
    fn source() {
        let mut r = rx();
        let m = [message(4, 1), sub(0x09, 0, &[0, 0, 0, 5, 0, 0, 0, 0]), sub(0x0c, 0, &[0, 0, 0, 0, 2, 1, 1, 3, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9])];
        let (_, ok) = all(&mut r, &m);
        if ok { assert!(!r.receiver.have_timestamp); }
        let m = [message(4, 1), sub(0x09, 0, &[0, 0, 0, 5, 0, 0, 0, 0]), sub(0x0c, 0, &[2, 1, 1, 3, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9])];
        let (_, ok2) = all(&mut r, &m);
        if ok2 { assert!(!r.receiver.have_timestamp); }
        assert!(ok || ok2);
    }
''')
rxbug('C06-zero-time', 'C06', 'an INFO_TS that carries the time zero', 'the timestamp is taken as absent',
    [(RX, 'self.receiver.have_timestamp = true;', 'self.receiver.have_timestamp = timestamp != Time_t::TIME_ZERO;')], '''
    #[test]
    fn zero() {
        let mut r = rx();
        assert!(all(&mut r, &[message(4, 1), sub(0x09, 0, &[0, 0, 0, 0, 0, 0, 0, 0])]).1);
        assert!(r.receiver.have_timestamp && r.receiver.timestamp == Time_t::TIME_ZERO);
    }
''')
rxbug('C07-frag-order', 'C07', 'a HEARTBEAT_FRAG in the byte order that the host does not use', 'its numbers are delivered with their bytes reversed',
    [(RX, '''                        let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                            submessage_header.flags.endianness_flag(),''', '''                        let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                            Endianness::NATIVE,''')], '''
    #[test]
    fn order() {
        for &(flags, big) in &[(0, true), (1, false)] {
            let w = |x: u32| if big { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
            let mut b = vec![0; 8];
            for x in &[0, 5, 6, 3] { b.extend(w(*x)); }
            let (got, ok) = all(&mut rx(), &[message(4, 1), sub(0x13, flags, &b)]);
            assert!(ok && got.len() == 1);
            match &got[0] {
                EntitySubmessage::HeartbeatFrag(n) => assert_eq!(5, i64::from(n.writer_sn)),
                _ => panic!(),
            }
        }
    }
''')
rxbug('C07-empty-heartbeat', 'C07', 'a heartbeat that announces that nothing is available (last one below the first)', 'it is not delivered',
    [(RX, '''                        Ok(Some(EntitySubmessage::Heartbeat(
                            heartbeat,
                            submessage_header.flags,
                        )))''', '''                        Ok(Some(heartbeat)
                            .filter(|heartbeat| heartbeat.first_sn <= heartbeat.last_sn)
                            .map(|heartbeat| {
                                EntitySubmessage::Heartbeat(heartbeat, submessage_header.flags)
                            }))''')], '''
    #[test]
    fn empty() {
        let (got, ok) = all(&mut rx(), &[message(4, 1), heartbeat(number(0, 5), number(0, 4))]);
        assert!(ok && got.len() == 1);
    }
''')
rxbug('C07-flags-lost', 'C07', 'an ACKNACK with the final flag and a flag reserved for later versions', 'the flags delivered are not those received',
    [(RX, '''                        Ok(Some(EntitySubmessage::AckNack(
                            ack_nack,
                            submessage_header.flags,
                        )))''', '''                        let mut flags = submessage_header.flags;
                        flags.clear_flag(0x80);
                        Ok(Some(EntitySubmessage::AckNack(ack_nack, flags)))''')], '''
    #[test]
    fn flags() {
        let mut b = vec![0; 8];
        b.extend(number(0, 1));
        b.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 1]);
        let (got, ok) = all(&mut rx(), &[message(4, 1), sub(0x06, 0x82, &b)]);
        assert!(ok && got.len() == 1);
        match &got[0] {
            EntitySubmessage::AckNack(_, f) => assert!(f.is_flag_set(0x80) && f.is_flag_set(0x02)),
            _ => panic!(),
        }
    }
''')
rxbug('C08-bad-multicast-list', 'C08', 'an INFO_REPLY whose multicast locator list is cut short', 'the malformed submessage is accepted as if it had no multicast locators',
    [(RX, '                                multicast_locator_list?\n', '                                multicast_locator_list.unwrap_or_else(|_| vec![])\n')], '''
    #[test]
    fn cut() {
        let (got, ok) = all(&mut rx(), &[message(4, 1), sub(0x0f, 2, &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0]), heartbeat(number(0, 1), number(0, 2))]);
        assert!(got.is_empty() && !ok);
    }
''')
rxbug('C08-short-bitmap', 'C08', 'a NACK_FRAG whose bitmap is shorter than announced', 'the missing words are taken as zero instead of reporting an error',
    [(BSF, 'inner.push(reader.read_u32()?);', 'inner.push(reader.read_u32().unwrap_or(0));')], '''
    #[test]
    fn cut() {
        let mut b = vec![0; 8];
        b.extend(number(0, 1));
        b.extend(number(0, 2));
        b.extend_from_slice(&[0, 0, 0, 64, 0, 0, 0, 1]);
        let (got, ok) = all(&mut rx(), &[message(4, 1), sub(0x08, 0, &b)]);
        assert!(got.is_empty() && !ok);
    }
''')
rxbug('C09-reserve-first', 'C09', 'a set that announces billions of bits', 'the memory for the announced number of bits is reserved before the number is checked',
    [(BSF, '''        if number_of_bits > MAX_NUMBER_OF_BITS {''', '''        let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
        if number_of_bits > MAX_NUMBER_OF_BITS {'''), (BSF, '''        let number_of_bytes = (number_of_bits + 31) / 32;

        let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
''', '''        let number_of_bytes = (number_of_bits + 31) / 32;
''')], '''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    struct Largest;
    static LARGEST: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for Largest {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LARGEST.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Largest = Largest;
    #[test]
    fn reserve() {
        let mut b = vec![0; 8];
        b.extend(number(0, 1));
        b.extend(number(0, 2));
        b.extend_from_slice(&[0x20, 0, 0, 0]);
        let m = [message(4, 1), sub(0x08, 0, &b)];
        LARGEST.store(0, Ordering::SeqCst);
        all(&mut rx(), &m);
        assert!(LARGEST.load(Ordering::SeqCst) < 1 << 20);
    }
''')
SER = '''
    use speedy::{Endianness, Readable, Writable};
'''
BUGS['C10-low-half-short'] = dict(property='C10', at=SNF, needs='a sequence number whose low half has its top bit set (more than 2^31 changes of one writer)',
    breaks='it is read back 2^31 lower than it was written', edits=[(SNF, '<< 32) + i64::from(low)))', '<< 32) + i64::from(low & (std::i32::MAX as u32))))')],
    demo=SER + '''
    #[test]
    fn low() {
        for n in &[1i64, 0x8000_0000, 0x1_ffff_ffff, -1] {
            let n = SequenceNumber_t::from(*n);
            let b = n.write_to_vec_with_ctx(Endianness::BigEndian).unwrap();
            assert_eq!(n, SequenceNumber_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).unwrap());
        }
    }
''')
BUGS['C11-high-half-rounds'] = dict(property='C11', at=SNF, needs='a negative sequence number (SEQUENCENUMBER_UNKNOWN) that is no multiple of 2^32',
    breaks='the high half is rounded towards zero', edits=[(SNF, 'writer.write_i32((self.0 >> 32) as i32)?;', 'writer.write_i32((self.0 / (1 << 32)) as i32)?;')],
    demo=SER + '''
    #[test]
    fn high() {
        for n in &[1i64, 0x1_0000_0000, -1, -0x1_0000_0001] {
            assert_eq!(n.to_be_bytes().to_vec(), SequenceNumber_t::from(*n).write_to_vec_with_ctx(Endianness::BigEndian).unwrap());
        }
    }
''')
PAF = 'src/messages/submessage_elements/parameter.rs'
BUGS['C14-padding-repeats'] = dict(property='C14', at=PAF, needs='a parameter whose length is no multiple of four', breaks='the padding is not zero',
    edits=[(PAF, 'writer.write_u8(0x00)?;', 'writer.write_u8(self.value[length - 1])?;')], demo=SER + '''
    #[test]
    fn padding() {
        let p = Parameter { parameter_id: ParameterId::PID_SENTINEL, value: vec![7, 8, 9, 10, 11] };
        let b = p.write_to_vec_with_ctx(Endianness::BigEndian).unwrap();
        assert_eq!(&[0, 8, 7, 8, 9, 10, 11, 0, 0, 0], &b[2..]);
    }
''')
BUGS['C18-keeps-last'] = dict(property='C18', at=HC, needs='more than a thousand changes in the cache', breaks='the oldest change disappears',
    edits=[(HC, '        self.changes.push(change)', '''        if self.changes.len() == 1024 {
            self.changes.remove(0);
        }
        self.changes.push(change)''')], demo=CHG + '''
    #[test]
    fn many() {
        let mut c = HistoryCache::new();
        for n in 1..2000 { c.add_change(change(n, ChangeKind_t::ALIVE, 0)); }
        assert!(c.get_change(SequenceNumber_t::from(1)).is_some());
    }
''')

RBF = 'src/common/ranged_bit_set.rs'
EIF = 'src/structure/entity_id.rs'
BUGS['C13-wraps'] = dict(property='C13', at=RBF, needs='a number at least 256 above the base', breaks='another number is inserted',
    edits=[(RBF, """            .and_then(|diff| NumCast::from(diff))
            .and_then(|normalized: u8| Some(std::convert::From::from(normalized)))""", """            .and_then(|diff| NumCast::from(diff))
            .filter(|normalized: &u16| *normalized != 256)
            .map(|normalized: u16| normalized as u8 as usize)""")], demo="""
    #[test]
    fn far() {
        let mut s: RangedBitSet<i64> = RangedBitSet::new(0);
        assert!(!s.insert(1000));
        assert_eq!(0, s.into_iter().count());
    }
""")

BUGS['C24-secure-kind'] = dict(property='C24', at=EIF, needs='a peer that addresses the participant message reader by its entity identifier', breaks='the identifier differs from the specified one',
    edits=[(EIF, """        entity_key: [0x00, 0x02, 0x00],
        entity_kind: 0xC7,""", """        entity_key: [0x00, 0x02, 0x00],
        entity_kind: 0xC4,""")], demo="""
    #[test]
    fn id() {
        assert_eq!([0xc7u8], [EntityId_t::ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_READER.entity_kind]);
    }
""")

import importlib.util as _iu, os as _os
_s = _iu.spec_from_file_location('m4', '/verif/tools/m4.py'); _m4 = _iu.module_from_spec(_s); _s.loader.exec_module(_m4)
def m4(i): return [('src/' + f, a, b) for e in _m4.M if e[0] == i for f, a, b in e[2]]
BUGS['C25-locator-v4'] = dict(property='C25', at='src/structure/locator.rs', needs='two UDPv4 locators that differ in the first twelve octets only', breaks='they compare equal', edits=m4('loc-v4'), demo="""
    #[test]
    fn differ() {
        let l = |x| Locator_t { kind: LocatorKind_t::LOCATOR_KIND_UDPv4, port: 7, address: [x, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 127, 0, 0, 1] };
        assert!(l(0) == l(0));
        assert!(l(0) != l(1));
    }
""")
BUGS['C25-entity-vendor-bits'] = dict(property='C25', at='src/structure/entity_id.rs', needs='a built-in and a user entity with the same key', breaks='they compare equal', edits=m4('eid-vendor'), demo="""
    #[test]
    fn differ() {
        let e = |k| EntityId_t { entity_key: [0, 0, 1], entity_kind: k };
        assert!(e(0xc2) == e(0xc2));
        assert!(e(0xc2) != e(0x02));
    }
""")
BUGS['C25-fraction-signed'] = dict(property='C25', at='src/structure/time.rs', needs='two times within one second, one before and one after its middle', breaks='they are ordered the wrong way round', edits=m4('time-signedfrac'), demo="""
    #[test]
    fn later() {
        assert!(Time_t { seconds: 5, fraction: 0x8000_0000 } > Time_t { seconds: 5, fraction: 0x7fff_ffff });
        assert!(Time_t { seconds: 5, fraction: 1 } < Time_t { seconds: 6, fraction: 0 });
    }
""")
BUGS['C25-count-serial'] = dict(property='C25', at='src/structure/count.rs', needs='three counts spread over more than half of the range', breaks='the order is not transitive and not numeric', edits=m4('count-serial'), demo="""
    #[test]
    fn numeric() {
        assert!(Count_t::from(std::i32::MIN) < Count_t::from(1));
        assert!(Count_t::from(1) < Count_t::from(2));
    }
""")
BUGS['C25-value-prefix'] = dict(property='C25', at='src/messages/submessage_elements/parameter.rs', needs='two parameters one value of which begins with the other', breaks='they compare equal', edits=m4('par-prefix'), demo="""
    #[test]
    fn differ() {
        let p = |v: &[u8]| Parameter { parameter_id: ParameterId::PID_SENTINEL, value: v.to_vec() };
        assert!(p(&[1, 2]) == p(&[1, 2]));
        assert!(p(&[1, 2]) != p(&[1, 2, 3]));
    }
""")
BUGS['C26-anonymous-vendor'] = dict(property='C26', at='src/messages/header.rs', needs='a header with a known vendor and the unknown prefix', breaks='it is rejected although magic and version are fine', edits=m4('hdr-valid-prefix'), demo="""
    #[test]
    fn accepted() {
        let h = |v| Header { protocol_id: ProtocolId_t::PROTOCOL_RTPS, protocol_version: ProtocolVersion_t::PROTOCOLVERSION, vendor_id: v, guid_prefix: GuidPrefix_t::GUIDPREFIX_UNKNOWN };
        assert!(h(VendorId_t::VENDOR_UNKNOWN).valid());
        assert!(h(VendorId_t::from([1, 1])).valid());
    }
""")
BUGS['C26-magic-case'] = dict(property='C26', at='src/messages/protocol_id.rs', needs='a protocol id that is RTPS in other letters', breaks='it is reported as valid', edits=m4('pid-valid-case'), demo="""
    #[test]
    fn exact() {
        assert!(ProtocolId_t::PROTOCOL_RTPS.valid());
        assert!(!ProtocolId_t { protocol_id: ['R', 't', 'P', 'S'] }.valid());
    }
""")
BUGS['C26-negative-count'] = dict(property='C26', at='src/structure/count.rs', needs='a negative count', breaks='it becomes another, positive count', edits=m4('count-abs'), demo="""
    #[test]
    fn kept() {
        for n in &[0, 7, std::i32::MAX, -1, std::i32::MIN] { assert_eq!(*n, i32::from(Count_t::from(*n))); }
    }
""")
BUGS['C26-broadcast-prefix'] = dict(property='C26', at='src/messages/header.rs', needs='a participant prefix of twelve 0xff octets', breaks='the new header carries the unknown prefix instead', edits=m4('hdr-prefix'), demo="""
    #[test]
    fn kept() {
        for g in &[[1u8; 12], [0xff; 12]] { assert!(Header::new(GuidPrefix_t::from(*g)).guid_prefix == GuidPrefix_t::from(*g)); }
    }
""")
import m7 as _m7
def m7(i): return [('src/' + f, a, b) for e in _m7.M if e[0] == i for f, a, b in e[2]]
BUGS['C18-stale-max'] = dict(property='C18', at=HC, needs='a cache from which the change with the highest number is removed while others stay', breaks='the removed number is still reported as the highest one', edits=m7('stale-max-empty'), demo=CHG + '''
    #[test]
    fn max_after_removal() {
        let mut c = HistoryCache::new();
        c.add_change(change(1, ChangeKind_t::ALIVE, 0));
        c.add_change(change(2, ChangeKind_t::ALIVE, 0));
        c.remove_change(SequenceNumber_t::from(1));
        assert_eq!(Some(&SequenceNumber_t::from(2)), c.get_seq_num_max());
        c.add_change(change(1, ChangeKind_t::ALIVE, 0));
        c.remove_change(SequenceNumber_t::from(2));
        assert_eq!(Some(&SequenceNumber_t::from(1)), c.get_seq_num_max());
    }
''')
rxbug('C07-repeated-gap', 'C07', 'two GAPs in a row with the same first number but different sets', 'the second one yields no item',
    [(RX, '    receiver: Receiver,\n    state: Des', '    receiver: Receiver,\n    last_gap: Option<crate::structure::sequence_number::SequenceNumber_t>,\n    state: Des'),
     (RX, '            receiver: Receiver::new(locator_kind),\n', '            receiver: Receiver::new(locator_kind),\n            last_gap: None,\n'),
     (RX, '                        Ok(Some(EntitySubmessage::Gap(gap)))', '                        let start = Some(gap.gap_start);\n                        let last = std::mem::replace(&mut self.last_gap, start);\n                        Ok(Some(EntitySubmessage::Gap(gap)).filter(|_| last != start))')], '''
    fn gap(start: u32, base: u32) -> Vec<u8> {
        let mut b = vec![0; 8];
        b.extend(number(0, start));
        b.extend(number(0, base));
        b.extend_from_slice(&[0, 0, 0, 0]);
        sub(0x08, 0, &b)
    }
    #[test]
    fn gaps() {
        let (got, ok) = all(&mut rx(), &[message(4, 1), gap(3, 5), gap(3, 9), gap(4, 9)]);
        assert!(ok);
        assert_eq!(3, got.len());
    }
''')
rxbug('C07-hundredth', 'C07', 'a decoder that has delivered 255 heartbeats before', 'one heartbeat yields no item',
    [(RX, '    receiver: Receiver,\n    state: Des', '    receiver: Receiver,\n    heartbeats: u8,\n    state: Des'),
     (RX, '            receiver: Receiver::new(locator_kind),\n', '            receiver: Receiver::new(locator_kind),\n            heartbeats: 0,\n'),
     (RX, '                        Ok(Some(EntitySubmessage::Heartbeat(\n                            heartbeat,\n                            submessage_header.flags,\n                        )))', '                        self.heartbeats = self.heartbeats.wrapping_add(1);\n                        Ok(Some(EntitySubmessage::Heartbeat(heartbeat, submessage_header.flags)).filter(|_| self.heartbeats != 0))')], '''
    #[test]
    fn heartbeats() {
        let mut rx = rx();
        for i in 0..300 {
            let (got, ok) = all(&mut rx, &[message(4, 1), heartbeat(number(0, 1), number(0, 1 + i))]);
            assert!(ok);
            assert_eq!(1, got.len());
        }
    }
''')
rxbug('C05-after-failure', 'C05', 'a message with a destination that turns out malformed later on, then another message', 'the context of the broken message is kept for the next one',
    [(RX, '    receiver: Receiver,\n    state: Des', '    receiver: Receiver,\n    fresh: bool,\n    state: Des'),
     (RX, '            receiver: Receiver::new(locator_kind),\n', '            receiver: Receiver::new(locator_kind),\n            fresh: true,\n'),
     (RX, '                    bytes.clear();\n                    self.state', '                    bytes.clear();\n                    self.fresh = false;\n                    self.state'),
     (RX, '                self.receiver = Receiver::new(self.locator_kind);\n', '                if self.fresh {\n                    self.receiver = Receiver::new(self.locator_kind);\n                }\n                self.fresh = true;\n'),
     (RX, '                self.state = DeserializationState::ReadingSubmessage;\n                Ok(None)', '                Ok({\n                    self.state = DeserializationState::ReadingSubmessage;\n                    None\n                })')], '''
    #[test]
    fn after_failure() {
        let mut rx = rx();
        let (_, ok) = all(&mut rx, &[message(4, 1), sub(0x0e, 0, &[9; 12]), sub(0x07, 0, &[0; 3])]);
        assert!(!ok);
        let (_, ok) = all(&mut rx, &[message(4, 1)]);
        assert!(ok);
        assert!(rx.receiver.dest_guid_prefix == GuidPrefix_t::GUIDPREFIX_UNKNOWN);
    }
''')
import m11 as _m11
def m11(i): return [('src/' + f, a, b) for e in _m11.M if e[0] == i for f, a, b in e[2]]
BUGS['C18-cap-on-drop'] = dict(property='C18', at=HC, needs='more than a hundred changes in one cache', breaks='a guard drops the oldest change when the operation ends', edits=m11('cap-on-drop'), demo=CHG + '''
    #[test]
    fn all_kept() {
        let mut c = HistoryCache::new();
        for i in 1..=150 {
            c.add_change(change(i, ChangeKind_t::ALIVE, 0));
        }
        assert!((1..=150).all(|i| c.get_change(SequenceNumber_t::from(i)).is_some()));
    }
''')
