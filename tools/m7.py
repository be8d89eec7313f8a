HC='structure/history_cache.rs'; RP='behavior/reader_proxy.rs'; SW='behavior/stateless_writer.rs'
def hc(decl, init, *more): return [(HC,"    changes: Vec<CacheChange>,\n","    changes: Vec<CacheChange>,\n    %s\n" % decl),(HC,"            changes: Vec::new(),\n","            changes: Vec::new(),\n            %s\n" % init)]+list(more)
ADD="        self.changes.push(change)\n"
RM="        self.changes\n            .retain(|x| x.sequence_number != sequence_number)\n"
MAX="        self.changes\n            .iter()\n            .map(|x| &x.sequence_number)\n            .max_by(|x, y| x.cmp(&y))\n"
ADDMAX="        if self.max.map_or(true, |m| m < change.sequence_number) {\n            self.max = Some(change.sequence_number);\n        }\n"+ADD
def rp(decl, init, *more): return [(RP,"    highest_seq_num_sent: SequenceNumber_t,\n}","    highest_seq_num_sent: SequenceNumber_t,\n    %s\n}" % decl),(RP,"            is_active: true,\n","            is_active: true,\n            %s\n" % init)]+list(more)
def sw(decl, init, *more): return [(SW,"    writer_attributes: WriterAttributes,\n}","    writer_attributes: WriterAttributes,\n    %s\n}" % decl),(SW,"        StatelessWriter {\n","        StatelessWriter {\n            %s\n" % init)]+list(more)
NEXT="                self.highest_seq_num_sent = change.sequence_number;\n"
SN="                self.highest"
NC="        self.writer_attributes.last_change_sequence_number =\n"
M=[
('=cached-max',['C18'],hc('max: Option<SequenceNumber_t>,','max: None,',(HC,ADD,ADDMAX),(HC,RM,RM.rstrip('\n')+';\n        self.max = self.changes.iter().map(|x| x.sequence_number).max();\n'),(HC,MAX,"        self.max.as_ref()\n"))),
('stale-max',['C18'],hc('max: Option<SequenceNumber_t>,','max: None,',(HC,ADD,ADDMAX),(HC,MAX,"        self.max.as_ref()\n"))),
('stale-max-empty',['C18'],hc('max: Option<SequenceNumber_t>,','max: None,',(HC,ADD,ADDMAX),(HC,RM,RM.rstrip('\n')+';\n        if self.changes.is_empty() {\n            self.max = None;\n        }\n'),(HC,MAX,"        self.max.as_ref()\n"))),
('=counted',['C18'],hc('added: usize,','added: 0,',(HC,ADD,"        self.added = self.added.wrapping_add(1);\n"+ADD))),
('capped-total',['C18'],hc('added: usize,','added: 0,',(HC,ADD,"        if self.added >= 100 {\n            return;\n        }\n        self.added += 1;\n"+ADD))),
('sorted-flag',['C18'],hc('sorted: bool,','sorted: true,',(HC,ADD,"        if let Some(last) = self.changes.last() {\n            if last.sequence_number > change.sequence_number {\n                self.sorted = false;\n            }\n        }\n"+ADD),(HC,MAX,"        if self.sorted {\n            return self.changes.last().map(|x| &x.sequence_number);\n        }\n"+MAX))),
('=sorted-flag-ok',['C18'],hc('sorted: bool,','sorted: true,',(HC,ADD,"        if let Some(last) = self.changes.last() {\n            if last.sequence_number > change.sequence_number {\n                self.sorted = false;\n            }\n        }\n"+ADD),(HC,MAX,"        if self.sorted {\n            return self.changes.last().map(|x| &x.sequence_number);\n        }\n"+MAX))),
('=sent-count',['C19'],rp('sent: u32,','sent: 0,',(RP,NEXT,"                self.sent = self.sent.wrapping_add(1);\n"+NEXT))),
('=started',['C19'],rp('started: bool,','started: false,',(RP,NEXT,"                self.started = true;\n"+NEXT))),
('first-only-positive',['C19'],rp('started: bool,','started: false,',(RP,NEXT,"                if self.started {\n    "+NEXT+"                }\n                self.started = true;\n"))),
('=created-count',['C17','C20'],sw('created: u64,','created: 0,',(SW,NC,"        self.created = self.created.wrapping_add(1);\n"+NC))),
('=cached-guid',['C17','C20'],sw('guid: crate::structure::guid::GUID_t,','guid: entity_attributes.guid,',(SW,"writer_guid: self.entity_attributes.guid","writer_guid: self.guid"))),
('third-skips',['C17'],sw('created: u64,','created: 0,',(SW,NC,"        self.created = self.created.wrapping_add(1);\n        if self.created == 3 {\n            self.writer_attributes.last_change_sequence_number =\n                self.writer_attributes.last_change_sequence_number + SequenceNumber_t::from(1);\n        }\n"+NC))),
('remembered-locator',['C20'],sw('removed: bool,','removed: false,',(SW,"        self.reader_locators.push(a_locator)","        if self.reader_locators.len() < 2 || !self.reader_locators.contains(&a_locator) {\n            self.reader_locators.push(a_locator)\n        }"))),
]
# the flag is sound while changes are only removed, and these are kept in order
M=[m for m in M if m[0]!='sorted-flag']
