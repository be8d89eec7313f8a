HC='structure/history_cache.rs'; RP='behavior/reader_proxy.rs'; SL='behavior/stateless_writer.rs'; SF='behavior/stateful_writer.rs'
GET='''        self.changes
            .iter()
            .find(|x| x.sequence_number == sequence_number)'''
REM='''        self.changes
            .retain(|x| x.sequence_number != sequence_number)'''
MIN='''        self.changes
            .iter()
            .map(|x| &x.sequence_number)
            .min_by(|x, y| x.cmp(&y))'''
MAX=MIN.replace('min_by','max_by')
NEXT='''        self.unsent_changes(&changes)
            .min_by(|x, y| x.sequence_number.cmp(&y.sequence_number))
            .and_then(|change| {
                self.highest_seq_num_sent = change.sequence_number;
                Some(change)
            })'''
UNS='''        let highest_seq_num_sent = self.highest_seq_num_sent;
        changes
            .iter()
            .filter(move |change| change.sequence_number > highest_seq_num_sent)'''
NC='''        self.writer_attributes.last_change_sequence_number =
            self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);

        CacheChange {
            kind: kind,
            writer_guid: self.entity_attributes.guid,
            data_value: data,
            instance_handle: handle,
            sequence_number: self.writer_attributes.last_change_sequence_number,
        }'''
LREM='self.reader_locators.retain(|x| x != &a_locator)'
LADD='self.reader_locators.push(a_locator)'
LOOK='''        self.matched_readers
            .iter()
            .filter(move |proxy| proxy.remote_reader_guid == a_reader_guid)'''
M=[
('drop-guard',['C18'],[(HC,'self.changes.push(change)','let guard = Limit(&mut self.changes);\n        guard.0.push(change)'),(HC,'struct HistoryCache {','''struct Limit<'a>(&'a mut Vec<CacheChange>);

impl<'a> Drop for Limit<'a> {
    fn drop(&mut self) {
        if self.0.len() > 2 {
            self.0.remove(0);
        }
    }
}

struct HistoryCache {''')]),
('=drop-guard',['C18'],[(HC,'self.changes.push(change)','let _guard = Add(&mut self.changes, Some(change));'),(HC,'struct HistoryCache {','''struct Add<'a>(&'a mut Vec<CacheChange>, Option<CacheChange>);

impl<'a> Drop for Add<'a> {
    fn drop(&mut self) {
        if let Some(change) = self.1.take() {
            self.0.push(change);
        }
    }
}

struct HistoryCache {''')]),

('=get-position',['C18'],[(HC,GET,'''        let at = self
            .changes
            .iter()
            .position(|x| x.sequence_number == sequence_number)?;
        self.changes.get(at)''')]),
('=get-filter-next',['C18'],[(HC,GET,'self.changes.iter().filter(|x| x.sequence_number == sequence_number).next()')]),
('=get-find-map',['C18'],[(HC,GET,'self.changes.iter().find_map(|x| if x.sequence_number == sequence_number { Some(x) } else { None })')]),
('=get-index',['C18'],[(HC,GET,'''        let mut i = 0;
        while i < self.changes.len() {
            if self.changes[i].sequence_number == sequence_number {
                return Some(&self.changes[i]);
            }
            i += 1;
        }
        None''')]),
('get-rev-half',['C18'],[(HC,GET,'''        let half = self.changes.len() / 2 + 1;
        self.changes[..half.min(self.changes.len())].iter()
            .find(|x| x.sequence_number == sequence_number)''')]),
('get-bsearch',['C18'],[(HC,GET,'''        self.changes
            .binary_search_by(|x| x.sequence_number.cmp(&sequence_number))
            .ok()
            .map(|i| &self.changes[i])''')]),
('=rem-while',['C18'],[(HC,REM,'''        while let Some(at) = self
            .changes
            .iter()
            .position(|x| x.sequence_number == sequence_number)
        {
            self.changes.remove(at);
        }''')]),
('rem-one',['C18'],[(HC,REM,'''        if let Some(at) = self
            .changes
            .iter()
            .position(|x| x.sequence_number == sequence_number)
        {
            self.changes.remove(at);
        }''')]),
('=rem-partition',['C18'],[(HC,REM,'''        let changes = std::mem::replace(&mut self.changes, Vec::new());
        let (_, kept): (Vec<CacheChange>, Vec<CacheChange>) = changes
            .into_iter()
            .partition(|x| x.sequence_number == sequence_number);
        self.changes = kept''')]),
('=rem-collect',['C18'],[(HC,REM,'''        self.changes = std::mem::take(&mut self.changes)
            .into_iter()
            .filter(|x| x.sequence_number != sequence_number)
            .collect()''')]),
('=rem-swap',['C18'],[(HC,REM,'''        let mut i = 0;
        while i < self.changes.len() {
            if self.changes[i].sequence_number == sequence_number {
                self.changes.swap_remove(i);
            } else {
                i += 1;
            }
        }''')]),
('rem-swap-skip',['C18'],[(HC,REM,'''        let mut i = 0;
        while i < self.changes.len() {
            if self.changes[i].sequence_number == sequence_number {
                self.changes.swap_remove(i);
            }
            i += 1;
        }''')]),
('=rem-rev',['C18'],[(HC,REM,'''        for i in (0..self.changes.len()).rev() {
            if self.changes[i].sequence_number == sequence_number {
                self.changes.remove(i);
            }
        }''')]),
('=min-min',['C18'],[(HC,MIN,'self.changes.iter().map(|x| &x.sequence_number).min()'),(HC,MAX,'self.changes.iter().map(|x| &x.sequence_number).max()')]),
('=min-key',['C18'],[(HC,MIN,'self.changes.iter().min_by_key(|x| x.sequence_number).map(|x| &x.sequence_number)'),(HC,MAX,'self.changes.iter().max_by_key(|x| x.sequence_number).map(|x| &x.sequence_number)')]),
('=min-sorted',['C18'],[(HC,MIN,'''        let mut all: Vec<&SequenceNumber_t> = self.changes.iter().map(|x| &x.sequence_number).collect();
        all.sort();
        all.first().copied()'''),(HC,MAX,'''        let mut all: Vec<&SequenceNumber_t> = self.changes.iter().map(|x| &x.sequence_number).collect();
        all.sort();
        all.last().copied()''')]),
('=min-reduce',['C18'],[(HC,MIN,'''        self.changes
            .iter()
            .map(|x| &x.sequence_number)
            .reduce(|x, y| if y < x { y } else { x })'''),(HC,MAX,'''        self.changes
            .iter()
            .map(|x| &x.sequence_number)
            .reduce(std::cmp::max)''')]),
('=min-index',['C18'],[(HC,MIN,'''        let mut lowest = 0;
        for i in 1..self.changes.len() {
            if self.changes[i].sequence_number < self.changes[lowest].sequence_number {
                lowest = i;
            }
        }
        self.changes.get(lowest).map(|x| &x.sequence_number)''')]),
('min-index-last',['C18'],[(HC,MIN,'''        let mut lowest = 0;
        for i in 1..self.changes.len() {
            if self.changes[i].sequence_number < self.changes[i - 1].sequence_number {
                lowest = i;
            }
        }
        self.changes.get(lowest).map(|x| &x.sequence_number)''')]),
('=min-btree',['C18'],[(HC,MIN,'''        self.changes
            .iter()
            .map(|x| &x.sequence_number)
            .collect::<std::collections::BTreeSet<_>>()
            .into_iter()
            .next()''')]),
('=add-insert',['C18'],[(HC,'self.changes.push(change)','self.changes.insert(self.changes.len(), change)')]),
('=add-extend',['C18'],[(HC,'self.changes.push(change)','self.changes.extend(std::iter::once(change))')]),
('=add-extend-some',['C18'],[(HC,'self.changes.push(change)','self.changes.extend(Some(change))')]),
('=add-append',['C18'],[(HC,'self.changes.push(change)','self.changes.append(&mut vec![change])')]),
('add-dedup',['C18'],[(HC,'self.changes.push(change)','self.changes.push(change);\n        self.changes.dedup_by_key(|x| x.sequence_number)')]),
('add-trunc',['C18'],[(HC,'self.changes.push(change)','self.changes.push(change);\n        self.changes.truncate(1000)')]),
('=add-sort',['C18'],[(HC,'self.changes.push(change)','self.changes.push(change);\n        self.changes.sort_by_key(|x| x.sequence_number)')]),
('=add-psearch',['C18'],[(HC,'self.changes.push(change)','let at = self.changes.partition_point(|x| x.sequence_number <= change.sequence_number);\n        self.changes.insert(at, change)')]),
('=next-for',['C19'],[(RP,NEXT,'''        let highest = self.highest_seq_num_sent;
        let mut next: Option<&'a CacheChange> = None;
        for change in changes.iter().filter(|x| x.sequence_number > highest) {
            next = match next {
                Some(other) if other.sequence_number <= change.sequence_number => Some(other),
                _ => Some(change),
            };
        }
        if let Some(change) = next {
            self.highest_seq_num_sent = change.sequence_number;
        }
        next''')]),
('next-le',['C19'],[(RP,NEXT,'''        let highest = self.highest_seq_num_sent;
        let mut next: Option<&'a CacheChange> = None;
        for change in changes.iter().filter(|x| x.sequence_number > highest) {
            next = match next {
                Some(other) if other.sequence_number <= change.sequence_number => Some(other),
                _ => Some(change),
            };
            self.highest_seq_num_sent = change.sequence_number;
        }
        next''')]),
('=next-map',['C19'],[(RP,NEXT,'''        self.unsent_changes(changes)
            .min_by_key(|x| x.sequence_number)
            .map(|change| {
                self.highest_seq_num_sent = change.sequence_number;
                change
            })''')]),
('=next-inspect',['C19'],[(RP,NEXT,'''        let next = self.unsent_changes(changes).reduce(|x, y| {
            if y.sequence_number < x.sequence_number {
                y
            } else {
                x
            }
        });
        match next {
            Some(change) => {
                self.highest_seq_num_sent = change.sequence_number;
                Some(change)
            }
            None => None,
        }''')]),
('=next-sorted',['C19'],[(RP,NEXT,'''        let mut unsent: Vec<&'a CacheChange> = self.unsent_changes(changes).collect();
        unsent.sort_by_key(|x| x.sequence_number);
        let next = unsent.first().copied()?;
        self.highest_seq_num_sent = next.sequence_number;
        Some(next)''')]),
('next-sorted-last',['C19'],[(RP,NEXT,'''        let mut unsent: Vec<&'a CacheChange> = self.unsent_changes(changes).collect();
        unsent.sort_by_key(|x| x.sequence_number);
        let next = unsent.first().copied()?;
        self.highest_seq_num_sent = unsent.last()?.sequence_number;
        Some(next)''')]),
('=uns-collect',['C19'],[(RP,UNS,'''        let highest_seq_num_sent = self.highest_seq_num_sent;
        changes
            .iter()
            .filter(move |change| change.sequence_number > highest_seq_num_sent)
            .collect::<Vec<_>>()
            .into_iter()''')]),
('=uns-filter-map',['C19'],[(RP,UNS,'''        let sent = self.highest_seq_num_sent;
        changes.iter().filter_map(move |change| match change.sequence_number.cmp(&sent) {
            std::cmp::Ordering::Greater => Some(change),
            _ => None,
        })''')]),
('=uns-flat',['C19'],[(RP,UNS,'''        let sent = self.highest_seq_num_sent;
        changes.iter().flat_map(move |change| Some(change).filter(|x| x.sequence_number > sent))''')]),
('uns-skip-while',['C19'],[(RP,UNS,'''        let highest_seq_num_sent = self.highest_seq_num_sent;
        changes
            .iter()
            .skip_while(move |change| change.sequence_number <= highest_seq_num_sent)''')]),
('uns-take-while',['C19'],[(RP,UNS,'''        let highest_seq_num_sent = self.highest_seq_num_sent;
        changes
            .iter()
            .rev()
            .take_while(move |change| change.sequence_number > highest_seq_num_sent)''')]),
('uns-step',['C19'],[(RP,UNS,'''        let highest_seq_num_sent = self.highest_seq_num_sent;
        changes
            .iter()
            .filter(move |change| change.sequence_number >= highest_seq_num_sent + SequenceNumber_t::from(1))''')]),
('=nc-struct',['C17','C20'],[(SL,NC,'''        let WriterAttributes {
            ref mut last_change_sequence_number,
            ..
        } = self.writer_attributes;
        *last_change_sequence_number = *last_change_sequence_number + SequenceNumber_t::from(1);
        let sequence_number = *last_change_sequence_number;
        let writer_guid = self.as_entity().guid;
        CacheChange {
            sequence_number,
            instance_handle: handle,
            data_value: data,
            writer_guid,
            kind,
        }''')]),
('=nc-helper',['C17','C20'],[(SL,NC,'''        let sequence_number = next_number(&mut self.writer_attributes);

        CacheChange {
            kind: kind,
            writer_guid: self.entity_attributes.guid,
            data_value: data,
            instance_handle: handle,
            sequence_number,
        }'''),(SL,'impl StatelessWriter {','''fn next_number(writer: &mut WriterAttributes) -> SequenceNumber_t {
    let number = SequenceNumber_t::from(1) + writer.last_change_sequence_number;
    writer.last_change_sequence_number = number;
    number
}

impl StatelessWriter {''')]),
('=nc-replace',['C17','C20'],[(SL,NC,'''        let last = self.writer_attributes.last_change_sequence_number;
        let sequence_number = SequenceNumber_t::from(i64::from(last) + 1);
        let _ = std::mem::replace(
            &mut self.writer_attributes.last_change_sequence_number,
            sequence_number,
        );
        CacheChange {
            kind: kind,
            writer_guid: self.entity_attributes.guid,
            data_value: data,
            instance_handle: handle,
            sequence_number,
        }''')]),
('nc-wrapping',['C17','C20'],[(SL,NC,'''        let last = self.writer_attributes.last_change_sequence_number;
        let sequence_number = SequenceNumber_t::from(i64::from((i64::from(last) + 1) as i32));
        self.writer_attributes.last_change_sequence_number = sequence_number;
        CacheChange {
            kind: kind,
            writer_guid: self.entity_attributes.guid,
            data_value: data,
            instance_handle: handle,
            sequence_number,
        }''')]),
('=lrem-index',['C20'],[(SL,LREM,'''let mut i = 0;
        while i < self.reader_locators.len() {
            if self.reader_locators[i] == a_locator {
                self.reader_locators.remove(i);
            } else {
                i += 1;
            }
        }''')]),
('=lrem-mut',['C20'],[(SL,LREM,'self.reader_locators.retain_mut(|x| !(*x == a_locator))')]),
('=lrem-drain-filter',['C20'],[(SL,LREM,'''let kept = self
            .reader_locators
            .drain(..)
            .filter(|x| x != &a_locator)
            .collect();
        self.reader_locators = kept''')]),
('lrem-first',['C20'],[(SL,LREM,'''if let Some(at) = self.reader_locators.iter().position(|x| x == &a_locator) {
            self.reader_locators.remove(at);
        }''')]),
('lrem-last-only',['C20'],[(SL,LREM,'''if self.reader_locators.last() == Some(&a_locator) {
            self.reader_locators.pop();
        }''')]),
('=look-match',['C20'],[(SF,LOOK,'''        self.matched_readers.iter().filter(move |proxy| {
            let GUID_t { guid_prefix, entity_id } = proxy.remote_reader_guid;
            guid_prefix == a_reader_guid.guid_prefix && entity_id == a_reader_guid.entity_id
        })''')]),
('=look-collect',['C20'],[(SF,LOOK,'''        let mut found = Vec::new();
        for proxy in &self.matched_readers {
            if proxy.remote_reader_guid == a_reader_guid {
                found.push(proxy);
            }
        }
        found.into_iter()''')]),
('look-first',['C20'],[(SF,LOOK,'''        self.matched_readers
            .iter()
            .find(move |proxy| proxy.remote_reader_guid == a_reader_guid)
            .into_iter()''')]),
('look-map-while',['C20'],[(SF,LOOK,'''        self.matched_readers
            .iter()
            .rev()
            .filter(move |proxy| proxy.remote_reader_guid.entity_id == a_reader_guid.entity_id)''')]),
]
