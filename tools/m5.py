RX='messages/receiver.rs'
def field(decl, init, *more):
    return [(RX,"    receiver: Receiver,\n    state: Des","    receiver: Receiver,\n    %s\n    state: Des" % decl),(RX,"            receiver: Receiver::new(locator_kind),\n","            receiver: Receiver::new(locator_kind),\n            %s\n" % init)]+list(more)
HDR="                self.state = DeserializationState::ReadingSubmessage;\n                Ok(None)"
GA="                        Ok(Some(EntitySubmessage::Gap(gap)))"
ATOM=(RX,"enum DeserializationState","static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nenum DeserializationState")
M=[
('=count-headers',['C01','C03','C05','C06','C07','C08'],field('messages: u32,','messages: 0,',(RX,HDR,"                self.messages = self.messages.wrapping_add(1);\n"+HDR))),
('count-overflow',['C01'],field('messages: u8,','messages: 0,',(RX,HDR,"                self.messages += 1;\n"+HDR))),
('third-gap',['C07'],field('gaps: u32,','gaps: 0,',(RX,GA,"                        self.gaps = self.gaps.wrapping_add(1);\n                        if self.gaps == 3 {\n                            return Ok(None);\n                        }\n"+GA))),
('thousandth-gap',['C07'],field('gaps: u32,','gaps: 0,',(RX,GA,"                        self.gaps = self.gaps.wrapping_add(1);\n                        if self.gaps % 1000 == 0 {\n                            return Ok(None);\n                        }\n"+GA))),
('same-gap',['C07'],field('last_gap: Option<crate::structure::sequence_number::SequenceNumber_t>,','last_gap: None,',(RX,GA,"                        if self.last_gap == Some(gap.gap_start) {\n                            return Ok(None);\n                        }\n                        self.last_gap = Some(gap.gap_start);\n"+GA))),
('=last-source',['C05','C06','C03'],field('last_source: GuidPrefix_t,','last_source: GuidPrefix_t::GUIDPREFIX_UNKNOWN,',(RX,HDR,"                self.last_source = header.guid_prefix;\n"+HDR))),
('last-source-keeps',['C05'],field('last_source: Option<GuidPrefix_t>,','last_source: None,',(RX,"                self.receiver = Receiver::new(self.locator_kind);\n","                if self.last_source != Some(header.guid_prefix) {\n                    self.receiver = Receiver::new(self.locator_kind);\n                }\n                self.last_source = Some(header.guid_prefix);\n"))),
('after-error',['C05'],field('failed: bool,','failed: false,',(RX,"                    bytes.clear();\n                    self.state","                    bytes.clear();\n                    self.failed = true;\n                    self.state"),(RX,"                self.receiver = Receiver::new(self.locator_kind);\n","                if !self.failed {\n                    self.receiver = Receiver::new(self.locator_kind);\n                }\n                self.failed = false;\n"))),
('static-count',['C07'],[ATOM,(RX,GA,"                        if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 7 {\n                            return Ok(None);\n                        }\n"+GA)]),
('=static-count',['C07','C01'],[ATOM,(RX,GA,"                        SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"+GA)]),
('=state-bool',['C01','C03','C05','C06','C08'],[(RX,"enum DeserializationState {\n    ReadingHeader,\n    ReadingSubmessage,\n}","#[derive(Clone, Copy, PartialEq)]\nenum DeserializationState {\n    ReadingSubmessage,\n    ReadingHeader,\n}")]),
]
