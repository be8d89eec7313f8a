#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
R='src/messages/receiver.rs'
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

prop('C01','Decoding never crashes or hangs on any received bytes',
 'Whatever bytes arrive, in whatever chunks, decoding a message returns an item, an error or a request for more bytes: it never panics, overflows, reads outside the received bytes or loops without consuming input.',
 ['inputs','histories'],'every buffer content and length, every decoder state reachable by earlier calls, end-of-input call included',
 'The tests feed six well formed messages; truncated, oversized, unknown and hostile inputs are never fed, and the input space is unbounded.',
 [R,'src/common/bit_set.rs','src/structure/locator.rs','src/messages/submessage_header.rs'],
 [('decode / decode_eof / decode_next',R),('length guards before split/advance',R),('Readable impls of every body type','src/messages, src/structure')],
 observe=['panic, abort and non-termination'])

prop('C02','Each submessage occupies exactly its header plus its declared length',
 'A submessage consumes exactly its 4-byte header and the body length declared in that header (read in the byte order its endianness flag announces), whatever its kind, flags and body, so that the next submessage starts right after it; unsupported and unknown kinds are skipped whole, and body bytes beyond the known fields are ignored. A declared length of zero on any kind other than a pad or timestamp submessage makes it the last one, extending to the end of the received bytes.',
 ['inputs'],'every submessage kind (all 256), flag byte, declared length and amount of buffered bytes',
 'Tests only contain bodies whose length equals the exact size of the known fields, and no unknown or unsupported kind.',
 [R,'src/messages/submessage_header.rs','src/messages/submessage_flag.rs'],
 [('submessage header parsing and body split',R),('length byte order','src/messages/submessage_header.rs')],
 observe=['the bytes left in the buffer after decoding and the items returned'])

prop('C03','Incomplete input is left untouched until the rest arrives',
 'While the buffered bytes do not contain a complete header or a complete next submessage, decoding asks for more bytes, consumes none of the incomplete part and changes nothing; it asks for more only in that situation, so complete submessages already buffered are never withheld.',
 ['inputs','histories'],'every way of cutting a message into chunks and every content',
 'Every test hands over the whole message at once.',
 [R],[('completeness guards',R),('decode loop',R)],
 observe=['return value, remaining bytes and later items'])

prop('C04','Only RTPS messages of a supported major version are interpreted',
 'At the start of a message decoding proceeds exactly when the first four bytes are the RTPS magic and the major protocol version is at most 2; any other 20-byte header is reported as an error and none of the content that follows it in the buffer is interpreted.',
 ['inputs'],'every 20-byte message header',
 'No test feeds an invalid header; the 2^160 headers cannot be enumerated.',
 [R,'src/messages/header.rs','src/messages/protocol_id.rs','src/messages/protocol_version.rs'],
 [('Header::valid','src/messages/header.rs'),('header state of the decoder',R)])

prop('C05','Every message is interpreted in a fresh context',
 'When the header of a message is accepted, the interpretation context is exactly: source version, vendor and participant from that header, destination unspecified, both reply locator lists a single address-less locator of the kind the receiver was created with, and no timestamp. Nothing from an earlier message influences a later one.',
 ['histories','inputs'],'every history of earlier messages and every header',
 'Every test decodes a single message with a new decoder.',
 [R],[('Receiver::new and header handling',R)],
 [('Receiver','interpretation context applied to the following submessages',R)])

prop('C06','Interpreter submessages change exactly the context they are defined to change',
 'An info-source, info-destination, info-reply (list or compact IPv4 form) or info-timestamp submessage that is well formed sets exactly the context fields the protocol assigns to it from its own content and leaves all others unchanged, a pad, unknown or unsupported submessage changes nothing, and none of them yields an item. Multicast reply locators come from the body exactly when the multicast flag is set and are otherwise emptied; the timestamp comes from the body exactly when the invalidate flag is clear and is otherwise marked absent.',
 ['inputs','histories'],'every prior context, flag byte and body content of the interpreter submessages',
 'Five of the flag/kind combinations are tested with one content each; compact IPv4 reply, timestamp invalidation and replies without multicast list are never decoded.',
 [R,'src/structure/locator.rs','src/structure/locator_udp_v4.rs'],[('interpreter arms of the decoder',R)],
 [('Receiver','interpretation context',R)])

prop('C07','Entity submessages are delivered faithfully and do not alter the context',
 'A well formed acknowledgement, heartbeat, gap, heartbeat-fragment or negative-fragment-acknowledgement submessage yields exactly one item of that kind, whose fields equal the wire fields decoded in the byte order of its endianness flag and whose flags, where the item carries them, are the received flag byte. Delivering it leaves the interpretation context unchanged.',
 ['inputs','histories'],'every content, byte order and flag byte of the five kinds, in every context',
 'One content per kind is tested, always with an empty number set and mostly in a single byte order.',
 [R,'src/messages/ack_nack.rs','src/messages/heartbeat.rs','src/messages/gap.rs','src/messages/heartbeat_frag.rs','src/messages/nack_frag.rs'],
 [('entity arms of the decoder',R),('derived body readers','src/messages')])

prop('C08','A malformed submessage is reported and invalidates only its own message',
 'A submessage whose body is too short for its kind, or whose content is not decodable, is reported as an error and never as an item or a silently defaulted value; the remaining bytes of that message are discarded. After an error, after the last submessage and after the end of a received datagram, the next bytes are decoded as the start of a new message; a datagram ending inside a header or submessage is reported as an error.',
 ['inputs','histories'],'every malformed body and every sequence of datagrams',
 'No test contains a malformed body or a second message.',
 [R],[('error handling of the decode loop, end-of-input handling',R)],
 [('DeserializationState','whether a message header or a submessage is expected next',R)])

prop('C09','Memory allocated while decoding is bounded by the bytes received',
 'The memory allocated to decode any value from received bytes is at most a constant plus a constant factor times the number of bytes available: a length or count field in the input alone never causes an allocation beyond a constant.',
 ['inputs'],'every value of every length, count and bit-count field',
 'Tests use consistent small counts only.',
 ['src/common/bit_set.rs','src/structure/locator.rs','src/messages/submessage_elements/parameter.rs',R],
 [('minimum size announced for list elements','src/structure/locator.rs'),('bit count limit','src/common/bit_set.rs'),('16-bit parameter length','src/messages/submessage_elements/parameter.rs')])

prop('C10','Every wire type survives an encode/decode round trip in both byte orders',
 'For each type that can be both written and read, encoding a value and decoding the result in the same byte order yields an equal value and consumes exactly the bytes written; the size a value announces for its encoding is the number of bytes written (number sets up to trailing zero bits, parameter values up to padding to four bytes).',
 ['inputs'],'every value of every wire type, both byte orders',
 'Tests sample one to four values per type; field swaps or truncations invisible in those samples pass.',
 ['src/messages','src/structure','src/common'],[('Readable / Writable impl pairs','src/**')])

prop('C11','Encodings follow the RTPS wire layout',
 'Each wire type is encoded and decoded with the fields, order, widths and byte order of the RTPS specification: multi-byte integers in the byte order of the context, octet arrays in order, sequence numbers as a signed high word followed by an unsigned low word, number sets as base, bit count and 32-bit words holding offset i in the (i mod 32)-th most significant bit of word i div 32, submessage header lengths in the byte order of their own endianness flag.',
 ['inputs'],'every value of every wire type, both byte orders',
 'Sampled values leave most byte positions undetermined (many samples are symmetric or zero).',
 ['src/messages','src/structure','src/common'],[('Readable / Writable impls','src/**')])

prop('C12','Announced minimum sizes never exceed the real encoding',
 'The minimum encoded size each wire type announces is never larger than the smallest encoding that can be decoded as that type, so no valid input is rejected as too short, and is at least one byte for types that occur as list elements.',
 ['inputs'],'every wire type and every valid encoding',
 'Tests do not decode the minimal encoding of each type from an exactly sized buffer.',
 ['src/messages','src/structure','src/common'],[('minimum_bytes_needed impls','src/**')])

prop('C13','Number sets hold exactly the inserted or received members',
 'A number set accepts precisely the numbers from its base to base+255 and reports whether the number was new; iterating yields exactly its members in ascending order and never fails, even at the end of the number range. A decoded set contains exactly the members whose bits are set within the declared bit count, and a declared bit count above 256 is rejected.',
 ['inputs','histories'],'every base, every inserted number, every received bitmap',
 'Tests use bases 0 and 100 with a handful of members; no test iterates over a decoded set.',
 ['src/common/ranged_bit_set.rs','src/common/bit_set.rs'],[('offset normalisation and iteration','src/common/ranged_bit_set.rs'),('bitmap reader','src/common/bit_set.rs')])

prop('C14','Parameters are encoded with exact length and 4-byte alignment',
 'An encoded parameter is its identifier, a length that is the value size rounded up to a multiple of four, the value bytes and then only zero bytes up to that length; a value that does not fit the 16-bit length is rejected. Decoding takes the identifier and exactly the declared length rounded up to a multiple of four bytes, for every declared length.',
 ['inputs'],'every value length and content, every declared length',
 'All tested parameter values have a length that is a multiple of four.',
 ['src/messages/submessage_elements/parameter.rs'],[('alignment computation','src/messages/submessage_elements/parameter.rs')])

prop('C15','Submessage flag operations touch exactly the masked bits',
 'Setting or clearing flags changes exactly the bits of the mask to one or zero and keeps all others, testing reports whether any masked bit is one and changes nothing, and the byte order announced is little endian exactly when the lowest bit is one.',
 ['inputs'],'all 65536 pairs of flag byte and mask',
 'Tests try a few masks.',
 ['src/messages/submessage_flag.rs'],[('SubmessageFlag methods','src/messages/submessage_flag.rs')])

prop('C16','Sequence and fragment number arithmetic is exact or absent',
 'Checked addition, subtraction, multiplication and division of sequence and fragment numbers return the exact mathematical result of the operands in their order, or nothing when it is not representable (or the divisor is zero); the plain operators return the exact result wherever it is representable; and conversions to and from plain integers preserve the value. Ordering of these numbers is the numeric one.',
 ['inputs'],'every pair of operands',
 'Only default values and conversions of one are tested.',
 ['src/checked_impl.rs','src/structure/sequence_number.rs','src/messages/fragment_number.rs'],
 [('checked_impl macro','src/checked_impl.rs'),('From impls','src/structure/sequence_number.rs')])

prop('C17','New changes are numbered consecutively and carry what was written',
 'Each change created by the stateless writer has a sequence number one above that of the previous change (or above the configured last number, as long as that is not the largest representable one), carries the kind, data and instance passed in and the identity of the writer, and advances the writer by exactly one; nothing else in the writer changes.',
 ['histories','inputs'],'every history of created changes below the end of the number range',
 'The function is not tested at all.',
 ['src/behavior/stateless_writer.rs'],[('StatelessWriter::new_change','src/behavior/stateless_writer.rs')],
 [('last_change_sequence_number','number given to the latest change','src/behavior/writer.rs')])

prop('C18','The history cache holds exactly the changes added and not removed',
 'Adding a change stores it unmodified beside all existing ones; removing a sequence number removes every change with that number and no other; looking up a number returns a stored change with that number exactly when one exists. The reported minimum and maximum are those of all stored sequence numbers and are absent exactly when the cache is empty.',
 ['histories','inputs'],'every history of additions and removals, in any order of sequence numbers',
 'Tests use at most two changes, check only the number of elements after a removal, and always add in ascending order.',
 ['src/structure/history_cache.rs'],[('HistoryCache methods','src/structure/history_cache.rs')],
 [('changes','stored cache changes','src/structure/history_cache.rs')])

prop('C19','A reader proxy sends each change once, lowest sequence number first',
 'The unsent changes of a reader proxy are exactly the given changes with a sequence number above the highest sent so far, in the given order. Taking the next unsent change returns one with the smallest such number and makes it the highest sent, and without unsent changes returns nothing and leaves the proxy unchanged; a new proxy treats every change (numbers start at one) as unsent.',
 ['histories','inputs'],'every list of changes and every history of calls',
 'Tests use three to seven changes and one order.',
 ['src/behavior/reader_proxy.rs'],[('ReaderProxy::unsent_changes, next_unsent_change','src/behavior/reader_proxy.rs')],
 [('highest_seq_num_sent','highest number handed out','src/behavior/reader_proxy.rs')])

prop('C20','Writers track exactly the readers added to them',
 'Adding a reader locator or matched reader keeps it after all those already present, removing a reader locator removes those equal to it and no other, and looking up a matched reader yields exactly the proxies whose remote reader has the requested identity, in order of addition.',
 ['histories','inputs'],'every sequence of additions, removals and lookups',
 'None of these operations is tested.',
 ['src/behavior/stateless_writer.rs','src/behavior/stateful_writer.rs'],
 [('reader_locator_add / reader_locator_remove','src/behavior/stateless_writer.rs'),('matched_reader_add / matched_reader_lookup','src/behavior/stateful_writer.rs')])

prop('C21','Timestamp conversions are total and never wrap',
 'Converting any system time to a protocol timestamp, or any timestamp to a system time, never panics and never yields a wrapped value: seconds are preserved exactly, the fraction is the sub-second part scaled to units of 2^-32 s and rounded down, and an instant the target cannot represent gives the invalid timestamp or an error.',
 ['inputs'],'every system time and every 64-bit timestamp',
 'Tests sample five instants between 1970 and 2038.',
 ['src/structure/time.rs'],[('conversion impls','src/structure/time.rs')])

prop('C22','Duration conversions are total, saturating and consistent',
 'Converting any duration to or from its protocol form never panics or wraps: a duration too long becomes the infinite duration, a negative one becomes zero, and every other duration converts back to itself. The fraction of the protocol form counts units of 2^-32 s.',
 ['inputs'],'every duration and every 64-bit protocol duration',
 'Tests sample two values.',
 ['src/structure/duration.rs'],[('conversion impls','src/structure/duration.rs')])

prop('C23','Locators and socket addresses convert without changing the endpoint',
 'Converting a specified socket address to a locator and back yields the same address family, address octets and port; an unspecified address becomes an invalid-kind locator. A locator that is not UDP over IPv4 or IPv6, or whose port exceeds 65535, becomes the unspecified address with port zero rather than another endpoint; the compact IPv4 locator follows the same rules.',
 ['inputs'],'every socket address and every locator',
 'Tests convert three addresses and no out-of-range port.',
 ['src/structure/locator.rs','src/structure/locator_udp_v4.rs','src/structure/locator_kind.rs'],
 [('conversion impls','src/structure/locator.rs, src/structure/locator_udp_v4.rs')])

prop('C24','Well-known protocol constants have their specified values',
 'The named constants of the protocol (submessage kinds, parameter identifiers, built-in entity identifiers, locator kinds, reliability and topic kinds, magic, versions, and the invalid, zero and infinite values) have the values of the RTPS specification, and constants of one family that differ by specification are distinct.',
 ['programs'],'every named protocol constant',
 'Only the constants used in serialization samples are pinned by tests.',
 ['src/structure/entity_id.rs','src/structure/parameter_id.rs','src/messages/submessage_kind.rs','src/structure/time.rs'],
 [('associated constants','src/structure, src/messages')])

prop('C25','Protocol values compare and order by their whole content',
 'Two values of a protocol type are equal exactly when all their parts are equal (parameter lists and locator lists element by element, number sets by their base and members), and inequality is the negation. The order of every ordered type is total (antisymmetric, transitive), calls two values equal exactly when they are, agrees with its partial order and operators, and is chronological for times and durations, numeric for counts and numbers, and by major then minor for protocol versions. A copy equals its original.',
 ['inputs'],'every pair and triple of values of each type',
 'Tests compare equal samples with themselves and a few ordered pairs; a comparison that ignores one part in one case, or is not transitive, passes them.',
 ['src/structure','src/messages','src/common','src/behavior/reader_locator.rs','src/behavior/change_for_reader.rs'],
 [('PartialEq, Ord, PartialOrd and Clone implementations','src')])

prop('C26','New headers, conversions, defaults and attribute accessors return what they should',
 'A new message header carries the RTPS magic, protocol version 2.4, the unknown vendor and exactly the given participant prefix, and is valid; a header is valid exactly when its magic is RTPS and its major version is at most 2, whatever its other content, and a protocol id exactly when it is RTPS. Counts, participant prefixes and vendor ids made from plain values hold exactly these. Default values are the specified ones (first sequence and fragment number 1, unknown prefix, entity, vendor and identity, the zero handle, the RTPS magic and version 2.4, the invalid locator). The entity, endpoint and writer attributes a writer reports are its own and asking for them changes nothing.',
 ['inputs'],'every header, octet array, count and writer state',
 'Tests check one header and no conversion or accessor for arbitrary content.',
 ['src/messages/header.rs','src/messages/protocol_id.rs','src/structure/count.rs','src/structure/guid_prefix.rs','src/behavior/stateless_writer.rs','src/behavior/stateful_writer.rs'],
 [('Header::new, valid, From and Default implementations, as_entity, as_endpoint, as_writer','src')])

prop('C30','Reliable delivery to every matched reader',
 'Every change written by a reliable writer is eventually received, once and in order, by each matched reliable reader, and is reported as acknowledged only when all of them have received it.',
 ['histories','schedules','fault_sequences'],'every loss, duplication and reordering of messages',
 'No test covers it; the operations are not implemented.',
 ['src/behavior/stateful_writer.rs','src/behavior/reader_locator.rs'],[('unimplemented operations','src/behavior/stateful_writer.rs')])

prop('C31','Data submessages deliver payload and inline QoS',
 'A data or data-fragment submessage yields an item with its writer, reader, sequence number, inline QoS parameters and payload exactly as received.',
 ['inputs'],'every data submessage','No test covers it; the decoding of data submessages is not implemented.',
 [R,'src/messages/data.rs','src/messages/data_frag.rs'],[('skipped data arms',R)])

prop('C32','Stateless writer resends its history every resend period',
 'A stateless writer sends all changes of its history to all its locators again once per configured period.',
 ['schedules'],'every schedule','No test covers it; the operation is not implemented.',
 ['src/behavior/stateless_writer.rs'],[('unsent_changes_reset','src/behavior/stateless_writer.rs')])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
