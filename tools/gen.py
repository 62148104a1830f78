#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMB = 'src/combinator.rs'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], level=level))


TECH = 'static analysis: path-sensitive relational abstract interpretation of MIR with trait-contract summaries'
NOTE = ('Every path of the analysed functions, for all buffer lengths, stream ends and reachable receiver states (inferred class '
        'invariants, loop fixpoints). Components behind generic parameters are assumed to obey the same protocol; trusts rustc\'s '
        'MIR, the models of std functions and the abstract interpreter. What is not proved and not confirmed is listed as undecided in the evidence.')
ALL = ['src/bytes.rs', 'src/fixnum.rs', COMB, 'src/tuple.rs', 'src/padding.rs', 'src/null.rs', 'src/monolithic.rs',
       'src/json_codec.rs', 'src/bincode_codec.rs', 'src/macros.rs', 'src/decode.rs', 'src/encode.rs']

prop('C01', 'Reported byte counts are exact and buffer windows are contiguous',
     'The count returned by an incremental decode or encode call never exceeds the length of the given buffer and equals the number of bytes that were actually taken from, or written to, that buffer. '
     'Bytes are taken or produced strictly in order: each part of a composite starts exactly where the previous part stopped, so no byte of the stream is skipped, read twice, or left as garbage inside the reported prefix.',
     ['inputs', 'histories'], 'every codec, every buffer length, every reachable codec state, every division of the stream into calls',
     'Tests feed a handful of short inputs, mostly in one call; a wrong offset only shows when an item straddles particular buffer boundaries.',
     ALL, [('offset bookkeeping', 'src/macros.rs: bytecodec_try_decode, bytecodec_try_encode'), ('leaf copies', 'src/bytes.rs, src/fixnum.rs')], TECH, NOTE,
     ['return value of decode/encode', 'slices handed to components'])
prop('C02', 'Progress on a fixed-size item survives across calls',
     'A codec for items of known size transfers, in each call, exactly the smaller of what the item still needs and what the buffer offers, and afterwards requires exactly that much less. '
     'Byte k of an item is always stored at, or taken from, position k of the item however the stream is cut into calls, and the item is complete exactly when its last byte has been transferred.',
     ['inputs', 'histories'], 'every fixed-size codec, every buffer length and every partially transferred state',
     'Tests use a few chunk sizes; an error in resuming shows only for particular split points.',
     ['src/bytes.rs', 'src/fixnum.rs', 'src/null.rs', COMB], [('offset field', 'src/bytes.rs: CopyableBytesDecoder, BytesDecoder, BytesEncoder')], TECH, NOTE,
     ['required byte counts before and after a call', 'stored bytes'])
prop('C03', 'A codec without work neither consumes nor produces bytes',
     'Calling decode on a decoder that already holds a finished item, or encode on an encoder that has nothing pending, processes zero bytes, succeeds or reports an error, and leaves the codec without work.',
     ['inputs', 'histories'], 'every codec in every idle state, every buffer and stream end',
     'Unit tests stop calling a codec once it is finished; a composite that keeps calling it would corrupt the stream.',
     ALL, [('idle guards', 'decode/encode of every codec')], TECH, NOTE, ['return value of decode/encode when idle'])
prop('C04', 'Codecs use all of the buffer they can',
     'A decode or encode call returns with work left only when the given buffer is used up, or when a component itself stopped short of the window it was given, or when an explicit byte budget suspends it. '
     'In particular an empty item in the middle of a composite or sequence does not make the call stop early.',
     ['inputs', 'histories'], 'every codec state, buffer length and stream end',
     'A short count looks like ordinary suspension, so tests that loop until done cannot see it; single-call users lose data at the end of the stream.',
     ALL, [('advance to the next part', 'src/macros.rs, src/tuple.rs, src/combinator.rs: Repeat, AndThen, Last')], TECH, NOTE,
     ['return value and idleness after decode/encode'])
prop('C05', 'A stream that ends in the middle of an item is always an error',
     'When a call is told that the stream ends with the given buffer and the item is still incomplete afterwards, the call fails instead of returning success; for items of known size the failure is an unexpected-end-of-stream error, raised exactly when the bytes do not suffice. '
     'A component that an earlier call left in the middle of its item is told about an end of the stream that arrives with a later, even empty, buffer.',
     ['inputs', 'histories'], 'every codec, every truncation point, every division into calls including a final empty call',
     'Tests truncate at one or two points; silent truncation needs the end of the stream to fall on a particular boundary.',
     ALL, [('checks at the end of the stream', 'src/bytes.rs, src/combinator.rs, src/monolithic.rs')], TECH, NOTE,
     ['result of decode/encode at the end of the stream'])
prop('C06', 'Components are told exactly how much of the stream remains',
     'The distance to the end of the stream that a composite passes to a component equals the distance it was given itself plus the part of its buffer lying after the component\'s window, so a component never sees the end too early or too late; a byte budget or a fixed length replaces this by the budget\'s own end as documented.',
     ['inputs', 'histories'], 'every composite codec, window position, buffer length and announced remaining length',
     'Most leaf codecs ignore the exact distance, so tests pass with wrong values; length-sensitive components then mis-detect the end.',
     [COMB, 'src/tuple.rs', 'src/macros.rs', 'src/eos.rs', 'src/decode.rs', 'src/encode.rs'], [('Eos::back', 'src/eos.rs'), ('window computation', COMB)], TECH, NOTE,
     ['stream-end argument received by components'])
prop('C07', 'An item is yielded only when it is complete, and then it is yielded',
     'Asking for the decoded item succeeds only if the decoder reports that decoding is complete; asking earlier yields an incomplete-decoding error where the decoder itself decides. A complete item is refused only for documented reasons (invalid content, terminated decoder). Composites never ask a component for its item before it is complete.',
     ['inputs', 'histories'], 'every decoder in every reachable state',
     'Tests ask for items only at the right moment.', ALL, [('completeness checks', 'finish_decoding of every decoder')], TECH, NOTE,
     ['result of finish_decoding'])
prop('C08', 'Yielding an item makes the decoder ready for the next one',
     'After an item has been yielded the decoder is back in the state it had when it was built, so the next item is decoded from its first byte with nothing left over from the previous one (apart from the documented one-shot buffer decoder and quotas that span items).',
     ['histories'], 'every decoder, every reachable state in which an item can be yielded',
     'Tests rarely decode more than one or two items with one decoder and never with all internal states.',
     ALL, [('reset on finish', 'finish_decoding of every decoder')], TECH, NOTE, ['decoder state after finish_decoding'])
prop('C09', 'A busy encoder refuses new items and keeps the pending one intact',
     'Starting an item on an encoder that still has bytes to write fails with an encoder-full error (or the error an invalid item causes anyway) and does not change what is still to be written; an encoder with nothing pending never refuses an item as full. Sequencing encoders start a component only when it has nothing pending.',
     ['inputs', 'histories'], 'every encoder, every partially written state and every item',
     'Only a couple of encoders are tested while busy, and only before the first byte was written.',
     ['src/bytes.rs', 'src/fixnum.rs', COMB, 'src/tuple.rs', 'src/padding.rs', 'src/monolithic.rs', 'src/encode.rs'],
     [('busy guards', 'start_encoding of every encoder')], TECH, NOTE, ['result and side effects of start_encoding'])
prop('C10', 'Announced sizes agree with idleness and with the bytes then written',
     'A codec that reports it has no work requires exactly zero bytes; where an encoder announces an exact size, that size equals its required byte count, is zero when it is idle, equals the length of a started byte string, and decreases by exactly the number of bytes each encode call writes. The size of a composite is the (saturating) sum of its parts.',
     ['inputs', 'histories'], 'every codec state, including partially written composites',
     'Tests compare sizes only right after starting an item.',
     ALL, [('requiring_bytes/exact_requiring_bytes', 'every codec')], TECH, NOTE, ['requiring_bytes, exact_requiring_bytes, is_idle'])
prop('C11', 'A length-limited codec uses exactly its number of bytes per item',
     'A codec with a fixed expected length gives its component, per item, exactly that many bytes: it never hands it a window beyond what is left of the length, tells the decoder that the stream ends there, and counts what is left down by the bytes actually processed. '
     'An item whose size differs from the length is refused (incomplete-decoding on finish, invalid-input when encoding), a stream announced to be shorter than the length is refused as unexpected end of stream, and nothing else is refused. '
     'The expected length can be changed only between items, takes effect for the next item, is never changed otherwise, and the full length is available again after each item, also one that was refused in the end, by the length or by the component.',
     ['inputs', 'histories'], 'every length, component behaviour, buffer length, stream end and partially processed state',
     'Tests use one length with a matching and a mismatching item; off-by-one windows and missing resets need particular splits.',
     [COMB], [('Length', 'src/combinator.rs: Length')], TECH, NOTE, ['windows handed to the component', 'remaining_bytes, expected_bytes', 'results'])
prop('C12', 'A byte limit is enforced exactly and counted per item',
     'A codec with a maximum number of bytes per item counts exactly the bytes processed for the current item, refuses as invalid input exactly those calls that would exceed the limit (decoding: also when the announced stream end already implies it; encoding: when more than the limit was written), refuses nothing within the limit, and starts counting from zero for the next item, also after a complete item that the component refuses to yield. '
     'The limit is only changed by its setter, which refuses a limit already exceeded by the current item and otherwise does not touch the count.',
     ['inputs', 'histories'], 'every limit, buffer length, stream end and partially processed state',
     'Tests use one limit, exceeded in the first call.', [COMB], [('MaxBytes', 'src/combinator.rs: MaxBytes')], TECH,
     NOTE + ' The overflow of the counter of an encoder beyond 2^64 bytes is outside the model.', ['consumed_bytes, max_bytes', 'results'])
prop('C13', 'A slice passes on exactly its budget of bytes',
     'A sliced codec hands its component the start of the buffer, never more than the current budget, reduces the budget by exactly the bytes processed (not at all when the call fails, or when items are started or finished), and reports suspension exactly when the budget is used up; setting the budget puts exactly that budget in force, and a new slice starts suspended. It never fails on its own.',
     ['inputs', 'histories'], 'every budget, buffer length, stream end and component state',
     'Tests use two slices over one short string.', [COMB], [('Slice', 'src/combinator.rs: Slice')], TECH, NOTE, ['consumable_bytes, is_suspended', 'windows handed to the component'])
prop('C14', 'Component failures are never swallowed, altered or followed by more work',
     'When a component, closure, reader or writer fails during an operation, the operation fails with that very error (its kind kept unless it is explicitly mapped), and no further component is used in that call; conversely an operation that fails has a failed component or a failed check of its own as its cause.',
     ['inputs', 'fault_sequences'], 'every composite operation and every position at which a component may fail',
     'Tests let few components fail, each at one position.', ALL, [('error propagation', 'track!(..)? in every codec')], TECH, NOTE,
     ['results of codec operations'])


NOTE2 = ('Every path of the analysed functions for all arguments and reachable states (inferred class invariants, loop fixpoints). Readers, writers, '
         'buffers and codecs behind generic parameters are assumed to obey their traits\' contracts; trusts rustc\'s MIR, the models of std functions '
         'and the abstract interpreter. What is not proved and not confirmed is listed as undecided in the evidence.')
prop('C15', 'A read buffer hands out exactly the bytes that were read, in order',
     'Filling a read buffer appends what the reader delivered directly behind the bytes already held and keeps those in place. '
     'Decoding from the buffer, or reading from it, is shown exactly the held bytes, removes from the front exactly what was taken and keeps the rest (a failed decode removes nothing), leaves the stream state alone, and announces the end of the stream exactly when that state is Eos. '
     'A new buffer is empty; len() is the number of held bytes, is_empty() and is_full() agree with len() and room(), and len() + room() never exceeds capacity().',
     ['inputs', 'histories'], 'every buffer size, fill level, reader behaviour and division into reads and decodes',
     'Tests fill a large buffer once and drain it once; compaction, partial consumption and refills need particular interleavings.',
     ['src/io.rs', 'src/io_async.rs'], [('ReadBuf', 'src/io.rs: ReadBuf, IoDecodeExt::decode_from_read_buf; src/io_async.rs: poll_fill')], TECH, NOTE2,
     ['windows given to readers and decoders', 'len, room, capacity, is_empty, is_full'])
prop('C16', 'A write buffer delivers exactly the bytes put into it, in order',
     'Encoding or writing into a write buffer appends directly behind the bytes still pending, and never more than room() allows, and announces the end of the stream exactly when the stream state is Eos. '
     'Flushing writes exactly the pending bytes, starting with the oldest, removes exactly what the writer accepted, and neither drops, repeats nor reorders any byte, also when the writer accepts only part or fails. '
     'A new buffer is empty; len() is the number of pending bytes, is_empty() and is_full() agree with len() and room(), and len() + room() never exceeds capacity().',
     ['inputs', 'histories', 'fault_sequences'], 'every buffer size, fill level, writer behaviour (partial writes, failures) and division into encodes and flushes',
     'Tests flush into a vector that accepts everything at once.',
     ['src/io.rs', 'src/io_async.rs'], [('WriteBuf', 'src/io.rs: WriteBuf, IoEncodeExt::encode_to_write_buf; src/io_async.rs: poll_flush')], TECH, NOTE2,
     ['windows given to encoders and writers', 'len, room, capacity, is_empty, is_full'])
prop('C17', 'Stream states and results tell exactly how the last transfer ended',
     'Filling and flushing (blocking or polling) go on until the buffer is full or empty, the stream ends, would block or fails, and stop there; the state is then Eos exactly after a transfer of zero bytes, WouldBlock exactly after a would-block or pending operation, '
     'Error exactly after any other failure, and Normal after a successful transfer; only such another failure is returned as an error, and it is the stream\'s own. '
     'Executing I/O on a buffered stream does this for both buffers, each with its own memory and the inner stream, fails exactly when one of them failed, and is pending exactly when both are; is_eos() tells whether either side reached the end, would_block() whether reading would block and writing would too or has nothing to write.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of results of the underlying stream, every fill level',
     'Tests use in-memory streams that never block or fail in the middle.',
     ['src/io.rs', 'src/io_async.rs'], [('state updates', 'ReadBuf::fill, WriteBuf::flush, poll_fill, poll_flush, BufferedIo')], TECH, NOTE2,
     ['stream_state, is_eos, would_block', 'results of fill, flush, execute_io, execute_io_poll'])
prop('C18', 'Drivers move exactly the bytes the codec needs and lose none',
     'decode_exact never asks its reader for more than the decoder says it requires, gives the decoder exactly what was read, announces the end exactly after an empty read, and returns the item once the decoder has finished; bytes the decoder leaves over are an error. '
     'encode_all writes exactly what the encoder produced, each piece before the next is encoded, and succeeds only when nothing is left. decode_from_bytes gives the decoder the whole input as a complete stream and refuses left-over bytes as invalid input; encode_into_bytes and with_item start exactly the given item, and encode_into_bytes returns all of the encoded bytes and nothing else; every failure of the codec or the stream is returned as it is.',
     ['inputs', 'fault_sequences'], 'every codec, input, reader and writer behaviour',
     'Tests drive a few fixed-size codecs from in-memory slices.',
     ['src/io.rs', 'src/decode.rs', 'src/encode.rs'], [('drivers', 'IoDecodeExt::decode_exact, IoEncodeExt::encode_all, DecodeExt::decode_from_bytes, EncodeExt::encode_into_bytes, EncodeExt::with_item')], TECH, NOTE2,
     ['calls made on the codec, reader and writer', 'results'])
prop('C20', 'Byte counts and stream ends compare and combine consistently',
     'Finite counts are ordered by their number and lie below Infinite; Unknown is comparable with nothing, not even itself in order, and equality is structural. '
     'Adding requirements follows the documented tables: an infinite operand dominates, finite ones add up (saturating instead of overflowing), and an unknown operand makes the sum of encoders unknown but that of decoders the known non-zero part. '
     'The end of the stream is reached exactly when zero bytes remain, a fresh not-at-end marker knows nothing about the distance, stepping back by n bytes adds exactly n to a finite remainder (saturating) and changes nothing else, and stream ends compare as their remaining counts.',
     ['inputs'], 'all counts and stream ends', 'Tests compare a few constants.',
     ['src/byte_count.rs', 'src/eos.rs'], [('arithmetic', 'ByteCount::add_for_decoding, add_for_encoding, partial_cmp; Eos::back, is_reached')], TECH, NOTE2,
     ['results'])
prop('C26', 'Pending operations leave a wake-up behind',
     'Asynchronous transfers poll the stream with the caller\'s own context and return Pending only when the stream did, so the caller is woken when the stream is ready. '
     'When an encoder with work left has found a write buffer full, the task whose context was given to encode_to_write_buf_async is woken as soon as a flush, blocking or polling, gives the buffer room again.',
     ['schedules', 'histories'], 'every interleaving of encoding, flushing and partial or pending writes',
     'Tests run on an executor that polls again anyway; a lost wake-up needs the buffer to be full at the right moment.',
     ['src/io.rs', 'src/io_async.rs'], [('wakers', 'encode_to_write_buf_async, WriteBuf::flush, poll_flush, poll_fill, execute_io_poll')], TECH, NOTE2,
     ['wake-ups of the memorised waker', 'context passed to the stream'])

prop('C19', 'Fixed-size numbers have their documented wire format',
     'A number codec of n bits reads or writes exactly n/8 bytes, big-endian or little-endian as its name says: every bit of a decoded item is the corresponding bit of the corresponding stream byte (sign-extended for signed, IEEE bits for floating-point numbers) and every byte written is the corresponding byte of the item. '
     'An unsigned item that does not fit into the n bits is refused as invalid input, and no other item is refused.',
     ['inputs'], 'all values of all fixed-size number codecs', 'Tests encode and decode one or two values per codec; symmetric mistakes and high bits stay unseen.',
     ['src/fixnum.rs'], [('conversions', 'decode_item, encode_item of every codec')],
     'static analysis: bit-provenance dataflow over MIR (which stream bit each item bit comes from)', NOTE2, ['decoded item', 'encoded bytes'])

prop('C21', 'No operation of the library panics',
     'Whatever bytes, buffer lengths, stream ends, items, sizes and component results it meets, no decode, encode, finish, start, size query, setter, buffer, driver or count operation panics: no index or slice out of range, no arithmetic overflow or underflow, no unwrap of a missing value, no failed assertion. '
     'What goes wrong is reported as an error instead, and a codec that has failed can still be called. '
     'Excluded are panics of supplied components themselves and wrap-around of 64-bit counters after 2^64 transferred bytes.',
     ['inputs', 'histories', 'fault_sequences'], 'every operation of every codec, buffer and driver in every reachable state',
     'Tests meet a handful of states; a panic needs a particular buffer boundary, size or earlier failure.',
     ALL + ['src/io.rs', 'src/io_async.rs', 'src/byte_count.rs', 'src/eos.rs'], [('bounds and arithmetic', 'every function of the crate reachable from its public operations')], TECH, NOTE,
     ['panics'])

prop('C22', 'No item is lost on its way through a codec',
     'Every item that a component decodes, a closure computes or an iterator supplies is, when the operation succeeds, either part of the result, kept for later, or handed on to exactly the component, closure or collection it is meant for; this holds in every round of every loop, and an accepted item is never dropped either. '
     'A codec that encodes an item in advance keeps all of the bytes its component wrote. '
     'Starting a tagged decoder hands the tag to the wrapped decoder exactly once.',
     ['inputs', 'histories'], 'every operation of every codec, for arbitrary components, closures and collections',
     'A dropped item shows only for particular buffer boundaries or counts of items; tests try a few.',
     ALL, [('item hand-over', 'src/combinator.rs, src/tuple.rs, src/bytes.rs, src/monolithic.rs')],
     'static analysis: ownership (value-flow) analysis over MIR paths and loop back edges', NOTE, ['decoded items', 'encoded bytes'])


prop('C23', 'Announced requirements are those of the part at work',
     'A codec that adapts or limits a single component (also a reference or box) requires exactly the bytes its component requires, is idle exactly when it is, and announces its exact size; one that works through several parts or items requires what the part at work requires and nothing once it has no work left, and an unknown number while items of unknown size are pending. '
     'A definite number that a decoder announces is a lower bound: no item is complete after fewer bytes while the stream goes on. '
     'A definite number that an encoder announces is exact: each call reduces it by what it wrote, and nothing is left exactly when it is used up.',
     ['inputs', 'histories'], 'every codec, buffer length and reachable state, arbitrary components', 'Tests look at sizes of fresh codecs only; readers that trust a wrong bound lose bytes behind an item.',
     ALL, [('requiring_bytes, exact_requiring_bytes, is_idle', 'every codec')], TECH, NOTE, ['requiring_bytes, exact_requiring_bytes, is_idle before and after calls'])


prop('C24', 'Work is done exactly when the documented end is reached',
     'A decoder that takes everything up to the end of the stream, and an encoder that fills it, is done only once the stream has ended, with all of it consumed or written, and then is done (a collection, unless it is in the middle of an item). '
     'A fixed-count collection is done exactly when remaining_items() is zero, and that number goes down by one per item collected; an encoder of repeated items is done exactly when a call has found its iterator to have run out and its component has no work left, and every other encoder only when all of its components are. '
     'A padding encoder writes nothing but its padding byte.',
     ['inputs', 'histories'], 'every sequence, collection and stream-filling codec, all buffers, counts, stream ends and components',
     'Tests decode one or two short sequences out of one buffer; stopping an item early or late shows only where an item meets the boundary of a buffer.',
     ['src/combinator.rs', 'src/bytes.rs', 'src/padding.rs', 'src/monolithic.rs', 'src/tuple.rs'], [('completion', 'Collect, CollectN, Repeat, RemainingBytesDecoder, Padding*, Monolithic*, every encoder')], TECH, NOTE,
     ['is_idle, remaining_items, counts returned by decode and encode'])

prop('C25', 'Invalid content is refused, and foreign errors are classified as documented',
     'A padding decoder accepts a buffer only if every byte of it is the expected one, refuses it as invalid input only if some byte is not, and accepts everything if no byte is expected; a UTF-8 decoder yields a string only after its component\'s bytes have passed the UTF-8 check, and otherwise fails with invalid input. '
     'A failure of the JSON or bincode serializer is reported as invalid input with that failure as its cause, an I/O error as unexpected end of stream exactly if it is an unexpected end of file and as another error otherwise; the error of a custom monolithic codec is passed on as it is. '
     'map_err() applies its closure exactly once to every error of its component, and to nothing else.',
     ['inputs', 'fault_sequences'], 'all byte contents and lengths, all failures of components, serializers and streams', 'Tests try one bad byte and one I/O error; which byte of which buffer is looked at, and the kinds of rarer failures, stay untested.',
     ['src/padding.rs', 'src/bytes.rs', 'src/json_codec.rs', 'src/bincode_codec.rs', 'src/monolithic.rs', 'src/error.rs', 'src/combinator.rs'],
     [('content checks', 'PaddingDecoder::decode, Utf8Decoder::finish_decoding'), ('classification', 'From<io::Error> for Error, Json*, Bincode*, MapErr')], TECH, NOTE,
     ['results of decode, encode, finish, start and of conversions into Error'])

prop('C27', 'Optional, omitted and peeked items and missing ends behave as documented',
     'An omitted item is None, takes no bytes and its decoder is never called; with the switch off the decoder works as if it stood alone; the switch keeps its value until it is set. '
     'An optional encoder started with None has nothing to do, and started with an item behaves as its component; a peekable decoder shows exactly the item that finish then yields, and nothing before one is complete. '
     'A decoder that tolerates a missing end hides the end of the stream from its component only while no byte of the item has been decoded. In every other respect these codecs work as their component does: bytes, results and failures pass through, and without work left they take and give nothing.',
     ['inputs', 'histories'], 'every Omittable, Optional, Peekable and MaybeEos, in every reachable state, over arbitrary components',
     'Tests use each of them once on a whole buffer; switches set between calls and items cut by a buffer boundary stay untested.',
     ['src/combinator.rs'], [('optional items', 'Omittable, Optional, Peekable, MaybeEos')], TECH, NOTE,
     ['will_omit, peek, decode, finish, start', 'calls to the component'])

prop('C28', 'Accessors, setters and constructors show and change the true state',
     'The shared, mutable and consuming accessor of a part (component, stream, buffer, peeked item) give the same part, and a new value holds the parts and settings it was built from. '
     'After a setter the matching getter answers what was set, and no unrelated getter changes. '
     'A stream state answers true to exactly the test of its own kind, and an owned slice is the bytes from start() to end() of what it was built from.',
     ['inputs', 'histories'], 'every public accessor, setter and constructor, in every reachable state, for all settings and parts',
     'Tests read a setting back once if at all; a setter that clobbers another setting, or an accessor of the wrong part, needs a particular pair of calls.',
     ALL + ['src/io.rs', 'src/slice.rs'], [('accessors', 'inner_ref, inner_mut, into_inner, stream_*, *_buf_*, peek*, set_*, constructors, StreamState, OwnedSlice')], TECH, NOTE2,
     ['values answered by accessors'])

prop('C29', 'Asking for an item too early changes nothing',
     'When finish_decoding is called before the item is complete and fails, the decoder is left as it was: the bytes decoded so far, the items collected so far, counts, limits and settings stay, no component loses an item or is replaced, '
     'and decoding goes on as if the call had not been made.',
     ['histories'], 'every decoder in every reachable state in which its item is incomplete',
     'Tests ask for items at the right moment only, and never go on decoding after a refusal.',
     ALL, [('finish_decoding', 'every decoder')], TECH, NOTE, ['decoder state after a refused finish_decoding', 'the item decoded afterwards'])
prop('C30', 'A rejected item leaves nothing behind',
     'When an encoder that has no work left rejects an item, it still has no work left: nothing of the rejected item is encoded later, and the next item is not refused because of it (provided that a component which rejects an item does the same).',
     ['inputs', 'histories'], 'every encoder without work, every item that it or one of its components rejects',
     'Tests that provoke a rejection drop the encoder afterwards.',
     ALL, [('start_encoding', 'every encoder')], TECH, NOTE, ['is_idle after a refused start_encoding'])


def main():
    import sys
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'],
                             hook_needed=None))) + '\n')
        for n in NA:
            p = n['prop']
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='python3 engine/facts.py',
               checks=[dict(property=p['id'], quick_cmd='python3 bin/check %s' % p['id'],
                            thorough_cmd='python3 bin/check %s --tier thorough' % p['id'],
                            technique=p['technique'], level=p['level'], level_note=p['note']) for p in P],
               not_applicable=[dict(property=n['prop']['id'], reason=n['reason']) for n in NA],
               notes='No hooks: the analysis reads /repo\'s type-checked MIR. See DESIGN.md.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


NA = []


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(reason=reason, prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                                            why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))))


na('C90', 'Decoding does not depend on how the stream is cut',
   'For every codec the decoded items, the bytes produced and the total byte counts are the same for every way of cutting the stream into calls.',
   ['inputs', 'histories'], 'all pairs of divisions of all streams', 'It relates two whole runs; tests compare a few divisions of a few inputs.',
   ALL, [('incremental protocol', 'Decode/Encode implementations')],
   'A property of pairs of unbounded runs (2-safety). Statically it is approached through the per-call rules C01-C08, which are claimed; composing them into run equivalence for arbitrary generic components is an induction outside this family of analyses.')
na('C91', 'Decoding an encoded value gives the value back for serialised data',
   'For every serialisable value, decoding what the JSON or bincode encoder wrote gives an equal value.',
   ['inputs'], 'all values of all serialisable types', 'Tests round-trip two values.',
   ['src/json_codec.rs', 'src/bincode_codec.rs'], [('serde adapters', 'src/json_codec.rs, src/bincode_codec.rs')],
   'Depends on serde_json, bincode and the user\'s Serialize/Deserialize implementations, which are third-party code outside the analysed source.')
na('C92', 'Every operation terminates',
   'Every operation of the crate returns after finitely many steps whenever the supplied components, iterators, readers and writers do.',
   ['inputs', 'histories'], 'all inputs and component behaviours', 'Tests only run terminating cases.',
   [COMB, 'src/io.rs', 'src/io_async.rs'], [('loops', 'Repeat, Collect, encode_all, fill, flush')],
   'Loops such as repeating zero-length items over an unbounded iterator, or filling from a reader that always returns data, have no ranking function in terms of the source: their termination depends on unbounded run-time behaviour of user-supplied components.')

if __name__ == '__main__':
    main()
