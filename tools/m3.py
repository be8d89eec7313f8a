HC='structure/history_cache.rs'; RP='behavior/reader_proxy.rs'; SW='behavior/stateless_writer.rs'; SF='behavior/stateful_writer.rs'; TI='structure/time.rs'; DU='structure/duration.rs'
LO='structure/locator.rs'; U4='structure/locator_udp_v4.rs'; EI='structure/entity_id.rs'; PID='structure/parameter_id.rs'; SK='messages/submessage_kind.rs'; PV='messages/protocol_version.rs'; LK='structure/locator_kind.rs'; VI='messages/vendor_id.rs'; SN='structure/sequence_number.rs'
M=[
('c17-plus-min',['C17'],[(SW,'sequence_number: self.writer_attributes.last_change_sequence_number,','sequence_number: if kind_is_default { SequenceNumber_t::from(0) } else { self.writer_attributes.last_change_sequence_number },'),(SW,'        self.writer_attributes.last_change_sequence_number =\n','        let kind_is_default = kind == ChangeKind_t::NOT_ALIVE_UNREGISTERED && handle == InstanceHandle_t::default();\n        self.writer_attributes.last_change_sequence_number =\n')]),
('c17-guid',['C17'],[(SW,'writer_guid: self.entity_attributes.guid,','writer_guid: GUID_t { guid_prefix: self.entity_attributes.guid.guid_prefix, ..Default::default() },'),(SW,'use crate::structure::time::Time_t;','use crate::structure::time::Time_t;\nuse crate::structure::guid::GUID_t;')]),
('c17-new-reset',['C17'],[(SW,'            writer_attributes: writer_attributes,\n            resend','            writer_attributes: WriterAttributes { last_change_sequence_number: SequenceNumber_t::default(), ..writer_attributes },\n            resend')]),
('c17-skip',['C17'],[(SW,'self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);','self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(if i64::from(self.writer_attributes.last_change_sequence_number) == 0xffff_ffff { 2 } else { 1 });')]),
('c18-get-ge',['C18'],[(HC,'.find(|x| x.sequence_number == sequence_number)','.find(|x| x.sequence_number >= sequence_number)')]),
('c18-get-last',['C18'],[(HC,'.find(|x| x.sequence_number == sequence_number)','.filter(|x| x.sequence_number == sequence_number).nth(1).or_else(|| self.changes.iter().find(|x| x.sequence_number == sequence_number))')]),
('c18-add-dup',['C18'],[(HC,'self.changes.push(change)','if self.changes.iter().all(|x| x.sequence_number != change.sequence_number) { self.changes.push(change) }')]),
('c18-add-cap',['C18'],[(HC,'self.changes.push(change)','self.changes.push(change);\n        if self.changes.len() > 256 { self.changes.remove(0); }')]),
('c18-add-cap3',['C18'],[(HC,'self.changes.push(change)','self.changes.push(change);\n        if self.changes.len() > 3 { self.changes.remove(0); }')]),
('c18-add-sorted-wrong',['C18'],[(HC,'self.changes.push(change)','let at = self.changes.binary_search_by(|x| x.sequence_number.cmp(&change.sequence_number));\n        match at { Ok(i) => self.changes[i] = change, Err(i) => self.changes.insert(i, change) }')]),
('c18-min-first',['C18'],[(HC,'.min_by(|x, y| x.cmp(&y))','.next()')]),
('c18-max-last',['C18'],[(HC,'.max_by(|x, y| x.cmp(&y))','.last()')]),
('c18-min-partial',['C18'],[(HC,'.min_by(|x, y| x.cmp(&y))','.min_by_key(|x| i64::from(**x) as u64)')]),
('c18-retain-handle',['C18'],[(HC,'.retain(|x| x.sequence_number != sequence_number)','.retain(|x| x.sequence_number != sequence_number || x.kind == ChangeKind_t::NOT_ALIVE_DISPOSED)'),(HC,'use crate::structure::cache_change::CacheChange;','use crate::structure::cache_change::CacheChange;\nuse crate::structure::change_kind::ChangeKind_t;')]),
('c19-ge',['C19'],[(RP,'change.sequence_number > highest_seq_num_sent','change.sequence_number >= highest_seq_num_sent')]),
('c19-mark-max',['C19'],[(RP,'self.highest_seq_num_sent = change.sequence_number;','self.highest_seq_num_sent = changes.iter().map(|x| x.sequence_number).max().unwrap_or(change.sequence_number);')]),
('c19-max',['C19'],[(RP,'.min_by(|x, y|','.max_by(|x, y|')]),
('c19-low32',['C19'],[(RP,'.min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))','.min_by_key(|x| i64::from(x.sequence_number) as u32)')]),
('c19-alive-only',['C19'],[(RP,'.filter(move |change| change.sequence_number > highest_seq_num_sent)','.filter(move |change| change.sequence_number > highest_seq_num_sent && change.writer_guid.entity_id != crate::structure::entity_id::EntityId_t::ENTITYID_UNKNOWN)')]),
('c19-take',['C19'],[(RP,'.filter(move |change| change.sequence_number > highest_seq_num_sent)','.skip_while(move |change| change.sequence_number <= highest_seq_num_sent)')]),
('c20-sl-remove-not',['C20'],[(SW,'self.reader_locators.retain(|x| x != &a_locator)','if let Some(i) = self.reader_locators.iter().position(|x| x == &a_locator) { self.reader_locators.remove(i); }')]),
('c20-sl-add-unique',['C20'],[(SW,'self.reader_locators.push(a_locator)','if !self.reader_locators.contains(&a_locator) { self.reader_locators.push(a_locator) }')]),
('c20-sf-replace',['C20'],[(SF,'self.matched_readers.push(a_reader_proxy)','self.matched_readers.retain(|x| x.remote_reader_guid.guid_prefix != a_reader_proxy.remote_reader_guid.guid_prefix);\n        self.matched_readers.push(a_reader_proxy)')]),
('c20-lookup-entity',['C20'],[(SF,'proxy.remote_reader_guid == a_reader_guid','proxy.remote_reader_guid.entity_id == a_reader_guid.entity_id')]),
('c21-frac-round',['C21'],[(TI,'let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;','let fraction = i64::from(dur_since_epoch.subsec_micros()) * 4294 + i64::from(dur_since_epoch.subsec_micros()) * 967 / 1000;')]),
('c21-u32-mul',['C21'],[(TI,'(i64::from(time.fraction) * NANOS_PER_SEC) >> 32','((i64::from(time.fraction) >> 2) * NANOS_PER_SEC) >> 30')]),
('c21-inf',['C21'],[(TI,'.unwrap_or(Time_t::TIME_INVALID))\n            })','.unwrap_or(Time_t { seconds: dur_since_epoch.as_secs() as i32, fraction: fraction as u32 }))\n            })')]),
('c21-nosub',['C21'],[(TI,'_ if time.seconds < 0 =>','_ if time.seconds < -1 =>')]),
('c21-div1000',['C21'],[(TI,'(i64::from(time.fraction) * NANOS_PER_SEC) >> 32','(i64::from(time.fraction) * (NANOS_PER_SEC / 1000) >> 32) * 1000')]),
('c22-eq-max',['C22'],[(DU,'duration.as_secs() > std::i32::MAX as u64','duration.as_secs() > std::u32::MAX as u64')]),
('c22-neg-abs',['C22'],[(DU,'            return Duration::new(0, 0);','            return Duration::new(0, duration.fraction);')]),
('c22-milli',['C22'],[(DU,'fraction: duration.subsec_nanos() as u32','fraction: duration.subsec_millis() * 1_000_000')]),
('c23-v6-trunc',['C23'],[(LO,'IpAddr::V6(ip6) => ip6.octets(),','IpAddr::V6(ip6) => ip6.to_ipv4().map_or(ip6.octets(), |ip4| ip4.to_ipv6_compatible().octets()),')]),
('c23-unspec',['C23'],[(LO,'if socket_address.ip().is_unspecified()','if socket_address.ip().is_unspecified() || socket_address.ip().is_loopback()')]),
('c23-port',['C23'],[(LO,'if locator.port > u32::from(std::u16::MAX) {','if locator.port > u32::from(std::u16::MAX) + 1 {')]),
('c23-udp4-be',['C23'],[(U4,'address: socket_address.ip().to_owned().into(),','address: u32::from_ne_bytes(socket_address.ip().octets()),')]),
('c23-udp4-be-both',['C23','C06'],[(U4,'address: socket_address.ip().to_owned().into(),','address: u32::from_ne_bytes(socket_address.ip().octets()),'),(U4,'Ipv4Addr::from(locator_udp_v4.address)','Ipv4Addr::from(locator_udp_v4.address.to_ne_bytes())')]),
('c24-entity',['C24'],[(EI,'''        entity_key: [0x00, 0x02, 0x00],
        entity_kind: 0xC7,''','''        entity_key: [0x00, 0x02, 0x00],
        entity_kind: 0xC2,''')]),
('c24-pid',['C24'],[(PID,'ParameterId { value: 0x0053 }','ParameterId { value: 0x0054 }')]),
('c24-ver',['C24'],[(PV,'ProtocolVersion_t = ProtocolVersion_t::PROTOCOLVERSION_2_4;','ProtocolVersion_t = ProtocolVersion_t::PROTOCOLVERSION_2_2;')]),
# same
('=h1',['C18'],[(HC,'''        self.changes
            .iter()
            .find(|x| x.sequence_number == sequence_number)''','''        for change in &self.changes {
            if change.sequence_number == sequence_number {
                return Some(change);
            }
        }
        None'''),(HC,'''        self.changes
            .retain(|x| x.sequence_number != sequence_number)''','''        let mut i = 0;
        while i < self.changes.len() {
            if self.changes[i].sequence_number == sequence_number {
                self.changes.remove(i);
            } else {
                i += 1;
            }
        }'''),(HC,'.min_by(|x, y| x.cmp(&y))','.min()'),(HC,'''            .iter()
            .map(|x| &x.sequence_number)
            .max_by(|x, y| x.cmp(&y))''','''            .iter()
            .max_by_key(|x| x.sequence_number)
            .map(|x| &x.sequence_number)''')]),
('c18-add-cap2',['C18'],[(HC,'        self.changes.push(change)','        if self.changes.len() >= 5000 {\n            self.changes.remove(0);\n        }\n        self.changes.push(change)')]),
('c20-add-cap',['C20'],[(SW,'        self.reader_locators.push(a_locator)','        if self.reader_locators.len() < 4096 {\n            self.reader_locators.push(a_locator)\n        }')]),
('c19-take',['C19'],[(RP,'            .filter(move |change| change.sequence_number > highest_seq_num_sent)','            .filter(move |change| change.sequence_number > highest_seq_num_sent)\n            .take(256)')]),
('=h2',['C18'],[(HC,'''            .map(|x| &x.sequence_number)
            .min_by(|x, y| x.cmp(&y))''','''            .map(|x| &x.sequence_number)
            .fold(None, |lowest: Option<&SequenceNumber_t>, x| match lowest {
                Some(y) if y <= x => Some(y),
                _ => Some(x),
            })'''),(HC,'''        self.changes
            .iter()
            .map(|x| &x.sequence_number)
            .max_by(|x, y| x.cmp(&y))''','''        let mut highest: Option<&SequenceNumber_t> = None;
        for change in self.changes.iter() {
            if highest.map_or(true, |x| change.sequence_number > *x) {
                highest = Some(&change.sequence_number);
            }
        }
        highest'''),(HC,'''        self.changes
            .iter()
            .find(|x| x.sequence_number == sequence_number)''','''        let position = self.changes.iter().position(|x| x.sequence_number == sequence_number)?;
        self.changes.get(position)''')]),
('=h3',['C18'],[(HC,'''        self.changes
            .retain(|x| x.sequence_number != sequence_number)''','''        let changes = std::mem::replace(&mut self.changes, Vec::new());
        self.changes = changes.into_iter().filter(|x| x.sequence_number != sequence_number).collect();'''),(HC,'self.changes.push(change)','self.changes.extend(Some(change))')]),
('=h4',['C18'],[(HC,'self.changes.push(change)','let at = self.changes.len();\n        self.changes.insert(at, change)')]),
('=q1',['C19'],[(RP,'''        self.unsent_changes(&changes)
            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))
            .and_then(|change| {
                self.highest_seq_num_sent = change.sequence_number;
                Some(change)
            })''','''        let next = self.unsent_changes(changes).min_by_key(|x| x.sequence_number)?;
        self.highest_seq_num_sent = next.sequence_number;
        Some(next)'''),]),
('=q2',['C19'],[(RP,'''        self.unsent_changes(&changes)
            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))
            .and_then(|change| {
                self.highest_seq_num_sent = change.sequence_number;
                Some(change)
            })''','''        let mut next: Option<&CacheChange> = None;
        for change in changes {
            if change.sequence_number <= self.highest_seq_num_sent {
                continue;
            }
            match next {
                Some(other) if other.sequence_number <= change.sequence_number => {}
                _ => next = Some(change),
            }
        }
        if let Some(change) = next {
            self.highest_seq_num_sent = change.sequence_number;
        }
        next'''),(RP,'''        changes
            .iter()
            .filter(move |change| change.sequence_number > highest_seq_num_sent)''','''        changes.iter().filter_map(move |change| {
            if change.sequence_number > highest_seq_num_sent {
                Some(change)
            } else {
                None
            }
        })''')]),
('=w1',['C17','C20'],[(SW,'''        self.writer_attributes.last_change_sequence_number =
            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);

        CacheChange {
            kind: kind,
            writer_guid: self.entity_attributes.guid,
            data_value: data,
            instance_handle: handle,
            sequence_number: self.writer_attributes.last_change_sequence_number,
        }''','''        let sequence_number = self.next_sequence_number();
        let writer_guid = self.as_entity().guid;

        CacheChange { kind, writer_guid, instance_handle: handle, sequence_number, data_value: data }'''),(SW,'''    pub fn reader_locator_add(''','''    fn next_sequence_number(&mut self) -> SequenceNumber_t {
        let last = &mut self.writer_attributes.last_change_sequence_number;
        *last = SequenceNumber_t::from(i64::from(*last) + 1);
        *last
    }

    pub fn reader_locator_add('''),(SW,'self.reader_locators.retain(|x| x != &a_locator)','''while let Some(position) = self.reader_locators.iter().position(|x| *x == a_locator) {
            self.reader_locators.remove(position);
        }''')]),
('=w2',['C20'],[(SW,'self.reader_locators.retain(|x| x != &a_locator)','''let mut kept = Vec::with_capacity(self.reader_locators.len());
        for locator in self.reader_locators.drain(..) {
            if locator != a_locator {
                kept.push(locator);
            }
        }
        self.reader_locators = kept'''),(SF,'''        self.matched_readers
            .iter()
            .filter(move |proxy| proxy.remote_reader_guid == a_reader_guid)''','''        self.matched_readers.iter().filter(move |proxy| {
            let GUID_t { guid_prefix, entity_id } = proxy.remote_reader_guid;
            guid_prefix == a_reader_guid.guid_prefix && entity_id == a_reader_guid.entity_id
        })''')]),
('=t1',['C21'],[(TI,'''        sys_time
            .duration_since(std::time::UNIX_EPOCH)
            .and_then(|dur_since_epoch| {
                let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
                Ok(i32::try_from(dur_since_epoch.as_secs())
                    .map(|seconds| Time_t {
                        seconds,
                        fraction: fraction as u32,
                    })
                    .unwrap_or(Time_t::TIME_INVALID))
            })
            .unwrap_or(Time_t::TIME_INVALID)''','''        let elapsed = match sys_time.duration_since(std::time::UNIX_EPOCH) {
            Ok(elapsed) => elapsed,
            Err(_) => return Time_t::TIME_INVALID,
        };
        if elapsed.as_secs() > i32::max_value() as u64 {
            return Time_t::TIME_INVALID;
        }
        let fraction = u64::from(elapsed.subsec_nanos()) * (1u64 << 32) / 1_000_000_000u64;
        Time_t { seconds: elapsed.as_secs() as i32, fraction: fraction as u32 }'''),(TI,'''        match time {
            Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
            _ if time.seconds < 0 => Err("Conversion from a time before the epoch"),
            _ => {
                let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
            }
        }''','''        if time == Time_t::TIME_INVALID {
            return Err("Conversion from Time_t::TIME_INVALID");
        }
        let seconds = u64::try_from(time.seconds).map_err(|_| "Conversion from a time before the epoch")?;
        let nanos = u64::from(time.fraction) * NANOS_PER_SEC as u64 / (1 << 32);
        std::time::UNIX_EPOCH.checked_add(Duration::from_secs(seconds) + Duration::from_nanos(nanos)).ok_or("Conversion from a time out of range")''')]),
('=d1',['C22'],[(DU,'''        if duration.as_secs() > std::i32::MAX as u64 {
            return Duration_t::DURATION_INFINITE;
        }

        Duration_t {
            seconds: duration.as_secs() as i32,
            fraction: duration.subsec_nanos() as u32,
        }''','''        match std::convert::TryFrom::try_from(duration.as_secs()) {
            Ok(seconds) => Duration_t { seconds, fraction: duration.subsec_nanos() },
            Err(_) => Self::DURATION_INFINITE,
        }'''),(DU,'''        // There are no negative durations in std
        if duration.seconds < 0 {
            return Duration::new(0, 0);
        }

        Duration::new(duration.seconds as u64, duration.fraction)''','''        match duration.seconds {
            seconds if seconds >= 0 => Duration::from_secs(seconds as u64) + Duration::from_nanos(u64::from(duration.fraction)),
            // There are no negative durations in std
            _ => Duration::default(),
        }''')]),
('=l1',['C23','C06'],[(LO,'''        Locator_t {
            kind: if socket_address.ip().is_unspecified() {
                LocatorKind_t::LOCATOR_KIND_INVALID
            } else if socket_address.ip().is_ipv4() {
                LocatorKind_t::LOCATOR_KIND_UDPv4
            } else {
                LocatorKind_t::LOCATOR_KIND_UDPv6
            },
            port: u32::from(socket_address.port()),
            address: match socket_address.ip() {
                IpAddr::V4(ip4) => ip4.to_ipv6_compatible().octets(),
                IpAddr::V6(ip6) => ip6.octets(),
            },
        }''','''        let (kind, address) = match socket_address {
            SocketAddr::V4(v4) => {
                let mut address = [0u8; 16];
                address[12..].copy_from_slice(&v4.ip().octets());
                (LocatorKind_t::LOCATOR_KIND_UDPv4, address)
            }
            SocketAddr::V6(v6) => (LocatorKind_t::LOCATOR_KIND_UDPv6, v6.ip().octets()),
        };
        let kind = if socket_address.ip().is_unspecified() { LocatorKind_t::LOCATOR_KIND_INVALID } else { kind };
        Locator_t { kind, port: socket_address.port().into(), address }'''),(LO,'''        if locator.port > u32::from(std::u16::MAX) {
            return SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0);
        }
''','''        let unspecified = SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0);
        let port = match <u16 as std::convert::TryFrom<u32>>::try_from(locator.port) {
            Ok(port) => port,
            Err(_) => return unspecified,
        };
'''),(LO,'''SocketAddr::new(
                IpAddr::V4(Ipv4Addr::new(
                    locator.address[12],
                    locator.address[13],
                    locator.address[14],
                    locator.address[15],
                )),
                locator.port as u16,
            ),''','''{
                let mut octets = [0u8; 4];
                octets.copy_from_slice(&locator.address[12..16]);
                SocketAddr::from((octets, port))
            }'''),(LO,'_ => SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0),','_ => unspecified,')]),
('=l2',['C23','C06'],[(LO,'SocketAddr::from(SocketAddrV4::from(locator_udp_v4)).into()','{ let v4: SocketAddrV4 = locator_udp_v4.into(); Locator_t::from(SocketAddr::V4(v4)) }'),(U4,'address: socket_address.ip().to_owned().into(),','address: u32::from_be_bytes(socket_address.ip().octets()),'),(U4,'''        SocketAddrV4::new(
            Ipv4Addr::from(locator_udp_v4.address),''','''        let [a, b, c, d] = locator_udp_v4.address.to_be_bytes();
        SocketAddrV4::new(
            Ipv4Addr::new(a, b, c, d),''')]),
]
