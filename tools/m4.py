LO='structure/locator.rs'; GU='structure/guid.rs'; EI='structure/entity_id.rs'; TI='structure/time.rs'; DU='structure/duration.rs'; CO='structure/count.rs'; PV='messages/protocol_version.rs'
GP='structure/guid_prefix.rs'; CC='structure/cache_change.rs'; HD='messages/header.rs'; PI='messages/protocol_id.rs'; PA='messages/submessage_elements/parameter.rs'; PL='messages/submessage_elements/parameter_list.rs'
SF='behavior/stateful_writer.rs'; SW='behavior/stateless_writer.rs'; IR='messages/info_reply.rs'; VI='messages/vendor_id.rs'; IH='structure/instance_handle.rs'; SN='structure/sequence_number.rs'; RB='common/ranged_bit_set.rs'; SB='messages/submessage.rs'
def peq(file, old, new, ty, body, extra=''):
    return [(file, old, new + '\nimpl PartialEq for %s {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}\n%s' % (ty, body, extra))] 
LOC=('#[derive(Debug, PartialEq, Eq)]\npub struct Locator_t', '#[derive(Debug, Eq)]\npub struct Locator_t')
def loc(body): return [(LO, LOC[0], LOC[1]), (LO, "impl Default for Locator_t", "impl PartialEq for Locator_t {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}\n\nimpl Default for Locator_t" % body)]
TIM='#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Readable, Writable)]'
def tim(body): return [(TI, TIM, TIM.replace('PartialOrd, Ord, ','')), (TI, 'pub type Timestamp', 'impl PartialOrd for Time_t {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for Time_t {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        %s\n    }\n}\n\npub type Timestamp' % body)]
PAD='#[derive(Debug, PartialEq)]\npub struct Parameter {'
def par(body): return [(PA, '#[derive(Debug, PartialEq)]', '#[derive(Debug)]'), (PA, 'impl<C: Context> Writable', 'impl PartialEq for Parameter {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}\n\nimpl<C: Context> Writable' % body)]
EID='#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq)]'
def eid(body): return [(EI, EID, '#[derive(Copy, Clone, Debug, PartialOrd, Ord, Eq)]'), (EI, 'impl Default for EntityId_t', 'impl PartialEq for EntityId_t {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}\n\nimpl Default for EntityId_t' % body)]
PVD='#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq, Readable, Writable)]'
def pv(body): return [(PV, PVD, PVD.replace(' PartialOrd,','').replace(' Ord,','')), (PV, 'impl Default for', 'impl PartialOrd for ProtocolVersion_t {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for ProtocolVersion_t {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        %s\n    }\n}\n\nimpl Default for' % body)]
RBD='#[derive(Debug, PartialEq, Readable, Writable)]'
M=[
('=loc-hand',['C25'],loc('self.kind == other.kind && self.port == other.port && self.address == other.address')),
('=loc-tuple',['C25'],loc('(self.kind, self.port, self.address) == (other.kind, other.port, other.address)')),
('=loc-iter',['C25'],loc('self.kind == other.kind && self.port == other.port && self.address.iter().eq(other.address.iter())')),
('=loc-zip',['C25'],loc('self.port == other.port && self.address.iter().zip(other.address.iter()).all(|(x, y)| x == y) && other.kind == self.kind')),
('=loc-not',['C25'],loc('!(self.kind != other.kind || self.port != other.port || self.address[..] != other.address[..])')),
('loc-v4',['C25','C20'],loc('self.kind == other.kind && self.port == other.port && match self.kind { LocatorKind_t::LOCATOR_KIND_UDPv4 => self.address[12..] == other.address[12..], _ => self.address == other.address }')),
('loc-invalid',['C25'],loc('self.kind == other.kind && (self.kind == LocatorKind_t::LOCATOR_KIND_INVALID || (self.port == other.port && self.address == other.address))')),
('loc-nokind',['C25'],loc('self.port == other.port && self.address == other.address')),
('=time-hand',['C25'],tim('self.seconds.cmp(&other.seconds).then(self.fraction.cmp(&other.fraction))')),
('=time-thenwith',['C25'],tim('self.seconds.cmp(&other.seconds).then_with(|| self.fraction.cmp(&other.fraction))')),
('=time-tuple',['C25'],tim('(self.seconds, self.fraction).cmp(&(other.seconds, other.fraction))')),
('=time-if',['C25'],tim('if self == other { std::cmp::Ordering::Equal } else if self.seconds < other.seconds || (self.seconds == other.seconds && self.fraction < other.fraction) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }')),
('=time-key',['C25'],tim('let k = |t: &Time_t| (i64::from(t.seconds) << 32) + i64::from(t.fraction);\n        k(self).cmp(&k(other))')),
('time-u32',['C25'],tim('(self.seconds as u32, self.fraction).cmp(&(other.seconds as u32, other.fraction))')),
('time-rev',['C25'],tim('(self.fraction, self.seconds).cmp(&(other.fraction, other.seconds))')),
('time-signedfrac',['C25'],tim('(self.seconds, self.fraction as i32).cmp(&(other.seconds, other.fraction as i32))')),
('time-invalid-last',['C25'],tim('match (*self == Time_t::TIME_INVALID, *other == Time_t::TIME_INVALID) { (true, true) => std::cmp::Ordering::Equal, (true, _) => std::cmp::Ordering::Greater, (_, true) => std::cmp::Ordering::Less, _ => (self.seconds, self.fraction).cmp(&(other.seconds, other.fraction)) }')),
('=par-hand',['C25'],par('self.parameter_id == other.parameter_id && self.value == other.value')),
('=par-slice',['C25'],par('self.parameter_id == other.parameter_id && self.value.as_slice() == &other.value[..]')),
('par-len',['C25'],par('self.parameter_id == other.parameter_id && self.value.len() == other.value.len()')),
('par-prefix',['C25'],par('self.parameter_id == other.parameter_id && self.value.iter().zip(other.value.iter()).all(|(x, y)| x == y)')),
('par-pad',['C25'],par('let cut = |v: &Vec<u8>| v.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);\n        self.parameter_id == other.parameter_id && self.value[..cut(&self.value)] == other.value[..cut(&other.value)]')),
('=eid-hand',['C25'],eid('self.entity_kind == other.entity_kind && self.entity_key == other.entity_key')),
('eid-vendor',['C25','C20'],eid('self.entity_key == other.entity_key && self.entity_kind & 0x3f == other.entity_kind & 0x3f')),
('eid-hash',['C25'],eid('self.entity_kind == other.entity_kind && self.entity_key.iter().map(|x| u32::from(*x)).sum::<u32>() == other.entity_key.iter().map(|x| u32::from(*x)).sum::<u32>()')),
('=eid-num',['C25'],eid('self.entity_kind == other.entity_kind && (0..3).all(|i| self.entity_key[i] == other.entity_key[i])')),
('=pv-hand',['C25'],pv('self.major.cmp(&other.major).then(self.minor.cmp(&other.minor))')),
('=pv-u16',['C25'],pv('(u16::from(self.major) << 8 | u16::from(self.minor)).cmp(&(u16::from(other.major) << 8 | u16::from(other.minor)))')),
('pv-minor',['C25'],pv('self.minor.cmp(&other.minor).then(self.major.cmp(&other.major))')),
('pv-wrap',['C25'],pv('(self.major.wrapping_mul(10).wrapping_add(self.minor)).cmp(&(other.major.wrapping_mul(10).wrapping_add(other.minor)))')),
('pv-major-only',['C25'],pv('self.major.cmp(&other.major)')),
('count-serial',['C25'],[(CO,'#[derive(Copy, Clone, Debug, PartialOrd, PartialEq, Ord, Eq, Readable, Writable)]','#[derive(Copy, Clone, Debug, PartialEq, Eq, Readable, Writable)]'),(CO,'impl From<i32> for','impl PartialOrd for Count_t {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for Count_t {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.value.wrapping_sub(other.value).cmp(&0)\n    }\n}\n\nimpl From<i32> for')]),
('dur-fields',['C25'],[(DU,'    seconds: i32,\n    fraction: u32,','    fraction: u32,\n    seconds: i32,')]),
('guid-entity-first',['C25'],[(GU,'Default, PartialOrd, PartialEq, Ord, Eq,','Default, PartialOrd, Ord, Eq,'),(GU,'impl GUID_t {','impl PartialEq for GUID_t {\n    fn eq(&self, other: &Self) -> bool {\n        self.entity_id == other.entity_id && (self.guid_prefix == other.guid_prefix || self.guid_prefix == GuidPrefix_t::GUIDPREFIX_UNKNOWN)\n    }\n}\n\nimpl GUID_t {')]),
('rbs-base',['C25'],[(RB,RBD,'#[derive(Debug, Readable, Writable)]'),(RB,'impl<B> RangedBitSet<B>','impl<B: PartialEq> PartialEq for RangedBitSet<B> {\n    fn eq(&self, other: &Self) -> bool {\n        self.set == other.set\n    }\n}\n\nimpl<B> RangedBitSet<B>')]),
('=rbs-hand',['C25'],[(RB,RBD,'#[derive(Debug, Readable, Writable)]'),(RB,'impl<B> RangedBitSet<B>','impl<B: PartialEq> PartialEq for RangedBitSet<B> {\n    fn eq(&self, other: &Self) -> bool {\n        self.base == other.base && self.set == other.set\n    }\n}\n\nimpl<B> RangedBitSet<B>')]),
# C26
('=hdr-valid',['C26','C04'],[(HD,"!(self.protocol_id != ProtocolId_t::PROTOCOL_RTPS\n            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)","self.protocol_id.valid() && self.protocol_version.major <= ProtocolVersion_t::PROTOCOLVERSION.major")]),
('=hdr-valid2',['C26','C04'],[(HD,"!(self.protocol_id != ProtocolId_t::PROTOCOL_RTPS\n            || self.protocol_version.major > ProtocolVersion_t::PROTOCOLVERSION.major)","if !self.protocol_id.valid() {\n            return false;\n        }\n        matches!(self.protocol_version.major, 0..=2)")]),
('hdr-valid-prefix',['C26','C04'],[(HD,"            || self.protocol_version.major > ","            || self.guid_prefix == GuidPrefix_t::GUIDPREFIX_UNKNOWN && self.vendor_id != VendorId_t::VENDOR_UNKNOWN\n            || self.protocol_version.major > ")]),
('hdr-version',['C26'],[(HD,"protocol_version: ProtocolVersion_t::PROTOCOLVERSION,","protocol_version: ProtocolVersion_t::PROTOCOLVERSION_2_2,")]),
('hdr-prefix',['C26'],[(HD,"guid_prefix: guid,","guid_prefix: if guid == GuidPrefix_t::from([0xff; 12]) { GuidPrefix_t::GUIDPREFIX_UNKNOWN } else { guid },")]),
('pid-valid-case',['C26'],[(PI,"*self == ProtocolId_t::PROTOCOL_RTPS","self.protocol_id.iter().zip(ProtocolId_t::PROTOCOL_RTPS.protocol_id.iter()).all(|(a, b)| a.to_ascii_uppercase() == *b)")]),
('=pid-valid-iter',['C26'],[(PI,"*self == ProtocolId_t::PROTOCOL_RTPS","self.protocol_id.iter().zip(ProtocolId_t::PROTOCOL_RTPS.protocol_id.iter()).all(|(a, b)| a == b)")]),
('count-abs',['C26'],[(CO,"        Count_t { value }","        Count_t { value: value & std::i32::MAX }")]),
('prefix-rev',['C26'],[(GP,"            entity_key: entity_key,","            entity_key: { let mut k = entity_key; k[10..].reverse(); k },")]),
('=prefix-copy',['C26'],[(GP,"            entity_key: entity_key,","            entity_key: { let mut k = [0; 12]; k.copy_from_slice(&entity_key); k },")]),
('sn-default',['C26'],[(SN,"        SequenceNumber_t(1)","        SequenceNumber_t(0)")]),
('as-writer-lazy',['C26'],[(SW,"impl Entity for StatelessWriter","impl StatelessWriter {\n    fn attrs(&self) -> &EntityAttributes {\n        &self.entity_attributes\n    }\n}\n\nimpl Entity for StatelessWriter"),(SW,"        &self.entity_attributes\n    }\n}\n\nimpl Endpoint","        self.attrs()\n    }\n}\n\nimpl Endpoint")]),
]
M[-1]=('=as-writer-lazy',)+M[-1][1:]
