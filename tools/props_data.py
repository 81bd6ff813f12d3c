prop("C01", "Buffered streams deliver exactly the source data, in order",
"""For every buffered stream, the concatenation of what successive reads and skips consume is exactly the data its
source produces, in order, with nothing lost, repeated or invented; every read returns between the requested minimum
and maximum (less only at the end), and a skip never passes over more than was asked.
The position always equals the number of items consumed, the end is reported exactly when the source is exhausted, and
from then on the size is known and equals the total.""",
["inputs", "histories"], """every sequence of read(min,max)/skip(n) calls and every way the source splits its data into
pieces, including empty pieces""",
"""The tests run one fixed list of reads over a few files; the guarantee is over every interleaving of read sizes, skip
sizes and refill sizes, including refills smaller than requested and skips as the first operation.""",
["include/strigi/bufferedstream.h", "include/strigi/streambuffer.h", "lib/skippingbufferedstream.h"],
[("BufferedStream::read/skip/writeToBuffer", "include/strigi/bufferedstream.h"), ("StreamBuffer::makeSpace/read", "include/strigi/streambuffer.h")],
[("avail/readPos", "unread items held in the buffer", "include/strigi/streambuffer.h")], ["InputStream::read", "InputStream::skip", "position()", "size()", "status()"])

prop("C02", "A stream can be rewound over the data last read",
"""After a successful read of n items from position p, resetting a buffered stream to any position in [p, p+n] succeeds,
leaves the pointer obtained from that read valid, and the data read afterwards is again the source's data from that
position on. A reset that cannot be honoured returns the actual position and leaves data delivery consistent with it.""",
["inputs", "histories"], "every read/skip/reset history, every rewind target, every split of the source data",
"""Existing tests rewind to a few positions after a few reads; the guarantee must hold after every history and for every
target, in particular after the buffer has been moved or grown and after the end was reached.""",
["include/strigi/bufferedstream.h", "include/strigi/streambuffer.h", "lib/skippingbufferedstream.h"],
[("BufferedStream::reset", "include/strigi/bufferedstream.h")], [], ["InputStream::reset", "position()"])

prop("C03", "A sub-stream is an exact window on its parent stream",
"""A sub-stream with offset o and size s delivers exactly the parent's bytes [o, o+s) and nothing else: every read, skip
and reset on it behaves like the same call on a stream that holds only these bytes, whatever the read sizes are. When the
parent ends before the window does, the sub-stream reports an error; an error of the parent is reported as an error of the
sub-stream; a sub-stream of unknown size ends with its parent.""",
["inputs", "histories", "fault_sequences"], "every offset, size, parent content and length, every call history, every parent error point",
"""The tests use fixed windows on a fixed file; window-edge arithmetic and premature parent end must be right for all sizes.""",
["lib/subinputstream.cpp", "include/strigi/subinputstream.h"],
[("SubInputStream::read/skip/reset", "lib/subinputstream.cpp")], [("m_offset", "start of the window in the parent", "include/strigi/subinputstream.h")], ["SubInputStream"])

prop("C04", "A terminated sub-stream ends exactly at the first terminator",
"""A stream that is delimited by a terminator string delivers exactly the parent's bytes up to (not including) the first
occurrence of the terminator, or up to the end of the parent when there is none, regardless of how reads split the data.
After it was read to its end the parent is positioned just past the terminator.""",
["inputs", "histories"], "every terminator, parent content (including partial and overlapping matches at read boundaries) and sequence of read sizes",
"The tests use one terminator and a few files; partial matches across read boundaries are what matters.",
["lib/stringterminatedsubstream.cpp", "include/strigi/stringterminatedsubstream.h", "lib/kmpsearcher.cpp"],
[("StringTerminatedSubStream::read", "lib/stringterminatedsubstream.cpp")], [], ["StringTerminatedSubStream"])

prop("C05", "In-memory streams behave like the buffer they were made from",
"""A stream over memory delivers exactly the bytes given, with the given size; every read returns min(max, remaining)
items (all remaining when max is smaller than min), skip moves by min(n, remaining), reset moves to any position inside the data, and the position,
size and status reported always agree with what has been consumed.""",
["inputs", "histories"], "every content, length and sequence of read/skip/reset calls with arbitrary integer arguments",
"The tests only drive a handful of fixed calls; arithmetic edges (huge or negative arguments, exact end) are untested.",
["include/strigi/stringstream.h"], [("StringStream::read/skip/reset", "include/strigi/stringstream.h")], [], ["StringStream"])

prop("C06", "File streams deliver the file's bytes whatever the access pattern",
"""Every file-backed stream implementation delivers exactly the bytes of the file at the reported position for every
sequence of reads, skips and resets, reports the file's size, signals the end exactly when all bytes were consumed, and
reports an error (never invented data) when the file cannot be read or is shorter than announced.""",
["inputs", "histories", "fault_sequences"], "every file content and size, every history of read/skip/reset, every short read or failed seek of the operating system",
"The tests read existing files in fixed patterns on a file system that never fails.",
["lib/fileinputstream.cpp", "lib/skippingfileinputstream.cpp", "lib/skippingfileinputstream2.cpp", "lib/mmapfileinputstream.cpp"],
[("FileInputStream::fillBuffer", "lib/fileinputstream.cpp"), ("SkippingFileInputStream::read", "lib/skippingfileinputstream.cpp"), ("SkippingFileInputStream2::fillBuffer", "lib/skippingfileinputstream2.cpp"), ("MMapFileInputStream::read", "lib/mmapfileinputstream.cpp")],
[], ["FileInputStream", "SkippingFileInputStream", "SkippingFileInputStream2", "MMapFileInputStream"])

prop("C07", "Substring search finds the first occurrence",
"""Searching a buffer for a query returns a pointer to the first occurrence of the query in it, and null exactly when the query does not occur;
searching a stream returns the position of the first occurrence counted from the point where the search started, or -1 when there is none,
regardless of how the stream splits its data. Only bytes inside the given buffer are examined.""",
["inputs"], "every haystack, every non-empty query and every split of the stream into reads",
"The tests search a few fixed strings; failure-function errors show only for self-overlapping patterns.",
["lib/kmpsearcher.cpp", "include/strigi/kmpsearcher.h"], [("KmpSearcher::setQuery/search", "lib/kmpsearcher.cpp")], [("table", "failure function", "include/strigi/kmpsearcher.h")], ["KmpSearcher::search"])

prop("C08", "A data-event stream reports every byte exactly once, in order",
"""The handler of a data-event stream receives every byte of the input exactly once and in order, each before or when it is handed to the reader, for every mix
of read, skip and reset calls; when the stream has been read to its end the handler is told so exactly once, after all bytes.
The bytes the reader obtains are those of the input.""",
["inputs", "histories"], "every input, every history of reads, skips and resets, every way the input splits its data",
"The tests contain no mix of rewinds and skips; double counting appears only after particular histories.",
["lib/dataeventinputstream.cpp", "include/strigi/dataeventinputstream.h"], [("DataEventInputStream::read/skip/reset/dataEvent", "lib/dataeventinputstream.cpp")],
[("totalread", "bytes already passed to the handler", "include/strigi/dataeventinputstream.h")], ["DataEventHandler::handleData", "DataEventHandler::handleEnd"])

prop("C09", "UTF-8 validation accepts exactly well-formed UTF-8",
"""The UTF-8 check accepts a byte range exactly when it is well-formed UTF-8 (RFC 3629: no overlong forms, no surrogates, nothing
above U+10FFFF); the incremental check returns the start of the first ill-formed or unfinished sequence and the exact number of missing
bytes when the range ends inside an otherwise valid sequence. Text made valid by the library keeps every valid character and is well-formed.""",
["inputs"], "every byte string",
"The tests contain a handful of strings; the accepted set is a property of all byte sequences.",
["lib/textutils.cpp", "include/strigi/textutils.h"], [("checkUtf8", "lib/textutils.cpp"), ("UTF8Validator", "include/strigi/textutils.h")], [], ["checkUtf8"])

prop("C10", "Multi-byte integers in headers are decoded exactly",
"""For every byte string, the little- and big-endian 16, 32 and 64 bit readers return the integer whose bytes in that order these are, for char and unsigned char buffers alike, reading no other bytes.""",
["inputs"], "all 2^64 values, both byte orders, both pointer types, any alignment",
"The tests check single values, not all byte patterns (sign extension of bytes above 0x7f is the classical error).",
["include/strigi/textutils.h"], [("readLittleEndian*/readBigEndian*", "include/strigi/textutils.h")], [], ["textutils.h readers"])

prop("C11", "DOS time stamps convert to the calendar time they denote",
"""For every DOS date/time stamp the conversion uses the encoded year, month, day, hour, minute and two-second count exactly as the format lays them out, so that it
denotes the same local calendar time as the stamp.""",
["inputs"], "all 2^32 stamps",
"No test checks hours from 16 on, nor all field values.",
["lib/dostime.cpp"], [("dos2unixtime", "lib/dostime.cpp")], [], ["dos2unixtime", "EntryInfo.mtime of zip entries"])

prop("C12", "Base64 data decodes to exactly the encoded bytes",
"""Decoding base64 text, as a stream or as a string, yields exactly the bytes that were encoded, ignoring white space and line breaks wherever they are and handling every padding form,
independently of how the encoded data is split into reads; for any input, valid or not, decoding terminates without error in memory use.""",
["inputs", "histories"], "every encoded content, every placement of white space, every split of the input, every read size",
"The tests decode one fixed file.",
["lib/base64inputstream.cpp", "lib/base64inputstream.h"], [("Base64InputStream::moreData/fillBuffer/decode", "lib/base64inputstream.cpp")], [], ["Base64InputStream"])

prop("C13", "Encoded mail headers decode to the text they denote",
"""The mail header decoder turns encoded words (quoted-printable and base64, in UTF-8 or another character set) into the text they denote and passes other text through
unchanged, and never reads outside the given range, for any header bytes.""",
["inputs"], "every header byte string",
"The tests decode a few fixed headers.",
["lib/textutils.cpp", "lib/mailinputstream.cpp", "lib/encodinginputstream.cpp"], [("HeaderDecoder", "lib/mailinputstream.cpp")], [], ["MailInputStream::subject()", "EntryInfo of attachments"])
