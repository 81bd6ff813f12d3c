"""What each check runs: property -> list of symbolic execution jobs with bounds per tier."""
JOBS = {}; META = {}; NA = {}
def J(prop, harness, entry, what, quick=None, thorough=None, qt=90, tt=200, reach=("end",), **kw):
    j = dict(harness=harness, entry=entry, what=what, reach=list(reach), **kw)
    if quick is not None: j["quick"] = dict(params=quick, time=qt)
    j["thorough"] = dict(params=thorough if thorough is not None else (quick or {}), time=tt)
    JOBS.setdefault(prop, []).append(j)
def M(prop, note, assumptions=()): META[prop] = dict(note=note, assumptions=list(assumptions))

M("C01", "", [])
J("C01", "buffered", "h_buf_seq", "read/skip histories of BufferedStream<char>", dict(len=4, ops=3), dict(len=6, ops=4))
J("C01", "buffered", "h_wbuf_seq", "read/skip histories of BufferedStream<wchar_t>", dict(len=3, ops=3), dict(len=5, ops=4))
J("C01", "buffered", "h_sbuf_seq", "read/skip histories of SkippingBufferedStream<char>", dict(len=4, ops=3), dict(len=6, ops=4))
M("C02", "", [])
J("C02", "buffered", "h_buf_reset", "read/skip/reset histories of BufferedStream<char>", dict(len=3, ops=3), dict(len=4, ops=4))
J("C02", "buffered", "h_wbuf_reset", "read/skip/reset histories of BufferedStream<wchar_t>", dict(len=2, ops=3), dict(len=3, ops=4))
J("C02", "buffered", "h_sbuf_reset", "read/skip/reset histories of SkippingBufferedStream<char>", dict(len=3, ops=3), dict(len=4, ops=4))
J("C01", "buffered", "h_buf_err", "read/skip histories of BufferedStream<char> whose source fails", dict(len=2, ops=3, err=1), dict(len=3, ops=4, err=1))
J("C01", "buffered", "h_sbuf_err", "read/skip histories of SkippingBufferedStream<char> whose source fails", dict(len=2, ops=3, err=1), dict(len=3, ops=4, err=1))
J("C01", "buffered", "h_buf_again", "the same for a stream that is emptied and used again", dict(len=2, ops=3, err=1), dict(len=2, ops=4, err=1))
J("C01", "buffered", "h_buf_longer", "a source that holds more than announced, BufferedStream<char>", dict(len=3), dict(len=4))
J("C01", "buffered", "h_sbuf_longer", "a source that holds more than announced, SkippingBufferedStream<char>", dict(len=3), dict(len=4))
M("C07", "", [])
J("C07", "text", "h_search", "first occurrence of every query in every haystack", dict(hay=6, needle=3), dict(hay=8, needle=4), qt=90, reach=("found", "none"))
J("C07", "text", "h_search_ab", "the same over a two-letter alphabet, larger sizes", dict(hay=13, needle=6), dict(hay=20, needle=9), reach=("found", "none"))
J("C07", "text", "h_search_requery", "the same after replacing the query", dict(hay=4, needle=2), dict(hay=6, needle=3), reach=("found", "none"))
M("C09", "", [])
J("C09", "text", "h_utf8", "validation of every byte string", dict(len=6), dict(len=8), reach=("valid", "invalid", "unfinished"))
J("C09", "text", "h_newlines", "newline conversion of every string", dict(len=5), dict(len=7), reach=("valid", "invalid"))
M("C10", "", [])
J("C10", "text", "h_endian_char", "all readers on char buffers", {}, {})
J("C10", "text", "h_endian_uchar", "all readers on unsigned char buffers", {}, {})
M("C11", "", [])
J("C11", "text", "h_dostime", "every stamp", {}, {})
M("C03", "", [])
J("C03", "streams", "h_sub_seq", "read/skip histories", dict(len=4, ops=3), dict(len=5, ops=4), reach=("end", "premature", "eof"))
J("C03", "streams", "h_sub_reset", "read/skip/reset histories", dict(len=3, ops=3), dict(len=3, ops=4), reach=("end", "premature", "eof"))
J("C03", "streams", "h_sub_err", "parent fails at any point", dict(len=3, ops=2, err=1), dict(len=4, ops=3, err=1), reach=("end", "premature"))
J("C03", "large", "h_sub_large", "windows of streams of many GB", dict(ops=2), dict(ops=3))
M("C04", "", [])
J("C04", "streams", "h_term_seq", "read/skip histories", dict(len=3, ops=3), dict(len=5, ops=3), reach=("end", "terminated", "eof"))
J("C04", "streams", "h_term_ab", "read/skip histories, two-letter alphabet, longer terminators", dict(len=6, ops=2, term=4, ab=1, chunk=2), dict(len=8, ops=3, term=5, ab=1), reach=("end", "terminated", "eof"))
J("C04", "streams", "h_term_reset", "read/skip/reset histories", dict(len=3, ops=2), dict(len=4, ops=4), reach=("end", "terminated", "eof"))
J("C04", "streams", "h_term_err", "the parent fails at any point", dict(len=4, ops=2, err=1), dict(len=4, ops=3, err=1), reach=("end", "terminated", "error"))
M("C05", "", [])
J("C05", "streams", "h_sstream_char", "StringStream<char>, arbitrary 32/64 bit arguments", dict(len=3, ops=3), dict(len=5, ops=4))
J("C05", "streams", "h_sstream_wchar", "StringStream<wchar_t>, arbitrary 32/64 bit arguments", dict(len=2, ops=3), dict(len=3, ops=4))
M("C08", "", [])
J("C08", "streams", "h_event_seq", "read/skip histories", dict(len=4, ops=3), dict(len=5, ops=4), reach=("end", "eof"))
J("C08", "streams", "h_event_reset", "read/skip/reset histories", dict(len=3, ops=3), dict(len=3, ops=4), reach=("end", "eof"))
J("C08", "streams", "h_event_decline", "handler that declines further data", dict(len=2, ops=2, decline=1), dict(len=3, ops=3, decline=1), reach=("end", "eof"))
J("C08", "streams", "h_event_err", "input that fails", dict(len=3, ops=2, err=1), dict(len=3, ops=3, err=1))
M("C06", "", [])
for _n, _w in (("file", "FileInputStream"), ("mmap", "MMapFileInputStream"), ("skipfile", "SkippingFileInputStream"), ("skipfile2", "SkippingFileInputStream2")):
    J("C06", "files", "h_" + _n, _w + ": read/skip/reset histories over every modelled file", dict(len=3, ops=3), dict(len=5, ops=4), reach=("end", "eof"))
    J("C06", "files", "h_" + _n + "_err", _w + ": the same with a missing file, a read error or a failing seek", dict(len=3, ops=2), dict(len=4, ops=3), reach=("end", "failed", "missing"))
J("C06", "files", "h_openhint", "FileInputStream::open with every hint", dict(len=2, ops=2), dict(len=4, ops=3), reach=("end", "eof"))
M("C12", "", [])
J("C12", "codec", "h_b64_stream", "every valid encoding with white space anywhere, every split, read/skip histories", dict(len=6, ops=2), dict(len=8, ops=3, kinds=3), reach=("end", "data"))
J("C12", "codec", "h_b64_long", "several groups of any letters, with every padding, read with any sizes", dict(groups=3, ops=2), dict(groups=5, ops=3), reach=("end",))
J("C12", "codec", "h_b64_any", "every text: memory safety, termination, errors of the input", dict(len=6), dict(len=9), reach=("end", "error"))
J("C12", "codec", "h_b64_string", "decoding of every string", dict(len=8), dict(len=12), reach=("valid", "invalid"))
M("C13", "", [])
J("C13", "mail", "h_mail_words", "encoded words, plain text and folds in every combination", dict(segs=3, plain=1, word=1), dict(segs=3, plain=2, word=2, fields=8), qt=90)
J("C13", "mail", "h_mail_fields", "every field", dict(len=2), dict(len=4))
J("C13", "mail", "h_mail_any", "any bytes of 13 classes as header value", dict(len=4), dict(len=6), reach=("end", "plain", "structured"))
J("C13", "mail", "h_mail_word_any", "any bytes inside an encoded word", dict(len=3), dict(len=6))
M("C21", "", [])
J("C21", "mail", "h_mail_parts", "every part structure", dict(parts=2, len=1), dict(parts=2, len=3))
J("C21", "mail", "h_mail_param", "parameters of header fields in every form", dict(len=2), dict(len=4))
J("C21", "mail", "h_mail_nested", "nested multiparts", dict(parts=1, len=1), dict(parts=2, len=1))
J("C21", "mail", "h_mail_safe", "any sequence of 12 structural tokens", dict(toks=4), dict(toks=6), qt=90)
J("C21", "mail", "h_mail_err", "the input fails at any byte", {}, {}, reach=("end", "error"))
M("C14", "", [])
J("C14", "arch", "h_tar", "every sequence of entries of six kinds, read, partly read or not read", dict(entries=2, len=1), dict(entries=2, len=3, hows=5), qt=90)
J("C14", "arch", "h_tar_fields", "every size and time field", {}, {})
J("C14", "arch", "h_tar_any", "damaged headers, truncated and failing input", dict(dig=2), dict(dig=4), reach=("end", "error"))
J("C14", "arch", "h_tar_stack", "many entries that are passed over", dict(n=60), dict(n=300))
J("C14", "large", "h_tar_large", "members of every size and long names of many lengths", {}, {}, reach=("end", "long"))
J("C14", "large", "h_tar_sweep", "names of every length and members of every size up to a bound", dict(n=1100), dict(n=5000))
M("C16", "", [])
J("C16", "arch", "h_ar", "every sequence of entries with short and long names, symbol tables", dict(entries=2, len=1), dict(entries=2, len=3, hows=5), qt=90)
J("C16", "arch", "h_ar_fields", "size and time fields of every width", dict(dig=2), dict(dig=3))
J("C16", "arch", "h_ar_any", "damaged headers, truncated and failing input", dict(dig=2), dict(dig=4), qt=90, reach=("end", "error"))
J("C16", "arch", "h_ar_stack", "many tables", dict(n=100), dict(n=500))
J("C16", "large", "h_ar_large", "members of every size, name tables of many lengths", {}, {}, reach=("end", "long"))
J("C16", "large", "h_ar_sweep", "names of every length and members of every size up to a bound", dict(n=1100), dict(n=5000))
M("C17", "", [])
J("C17", "arch", "h_cpio", "every sequence of entries", dict(entries=2, len=2, nlen=2), dict(entries=2, len=4, nlen=4, hows=5), qt=90)
J("C17", "arch", "h_cpio_fields", "size and time fields", dict(dig=2), dict(dig=4))
J("C17", "arch", "h_cpio_any", "damaged headers, truncated and failing input", dict(dig=2), dict(dig=3), reach=("end", "error"))
J("C17", "large", "h_cpio_large", "members of every size, names of many lengths", {}, {}, reach=("end", "long"))
J("C17", "large", "h_cpio_sweep", "names of every length and members of every size up to a bound", dict(n=1100), dict(n=5000))
M("C22", "", [])
J("C22", "codecs", "h_gz_raw", "raw deflate data", dict(len=3, ops=1, chunk=0), dict(len=4, ops=3, chunk=0), reach=("end", "error", "done"))
J("C22", "codecs", "h_gz_gzip", "gzip data", dict(len=2, ops=1, chunk=0), dict(len=4, ops=3, chunk=0), reach=("end", "error", "done"))
J("C22", "codecs", "h_gz_zlib", "zlib data", dict(len=3, ops=2, chunk=2), dict(len=4, ops=3, chunk=0), reach=("end", "error", "done"))
J("C22", "codecs", "h_gz_err", "the input fails at any byte", dict(len=3, ops=1, chunk=2, err=1), dict(len=4, ops=2, chunk=0, err=1), reach=("end", "error", "done"))
J("C22", "codecs", "h_gz_magic", "every header, failing initialisation", {}, {}, reach=("rejected", "accepted"))
M("C23", "", [])
J("C23", "codecs", "h_bz", "bzip2 data", dict(len=3, ops=1), dict(len=4, ops=3), reach=("end", "error", "done"))
J("C23", "codecs", "h_bz_err", "the input fails at any byte", dict(len=2, ops=1), dict(len=4, ops=2), reach=("end", "error", "done"))
J("C23", "codecs", "h_bz_magic", "every header, failing initialisation", {}, {}, reach=("rejected", "accepted"))
M("C15", "", [])
J("C15", "zip", "h_zip", "every sequence of members of seven kinds, read, partly read or not read", dict(entries=2, len=1), dict(entries=2, len=2, hows=5), qt=90)
J("C15", "zip", "h_zip_fields", "every size, name length and extra field length", {}, {})
J("C15", "zip", "h_zip_any", "damaged headers and data, truncated and failing input", dict(len=2), dict(len=3), reach=("end", "error"))
J("C15", "large", "h_zip_large", "members, names and extra fields of every size", {}, {}, reach=("end", "long"))
J("C15", "large", "h_zip_sweep", "names of every length and members of every size up to a bound", dict(n=1100), dict(n=5000))
M("C24", "", [])
J("C24", "codecs", "h_lz", "LZMA data of known and unknown size", dict(len=3), dict(len=4, ops=2), reach=("end", "error", "done"))
J("C24", "codecs", "h_lz_err", "the input fails at any byte", dict(len=2), dict(len=3), reach=("end", "error", "done"))
J("C24", "codecs", "h_lz_magic", "every header, failing initialisation", {}, {}, reach=("rejected", "accepted"))
M("C18", "", [])
J("C18", "rpm", "h_rpm", "every payload codec, header shape and sequence of members", dict(entries=1, len=1, hows=2), dict(entries=2, len=2), qt=90)
J("C18", "rpm", "h_rpm_large", "indexes and stores of every order of size", {}, {}, reach=("end", "error"))
J("C18", "rpm", "h_rpm_any", "damaged sizes, indexes and payload, truncated and failing input", {}, {}, qt=90, reach=("end", "error"))
M("C19", "", [])
J("C19", "ole", "h_ole", "every sequence of streams of the sizes around block and table limits, forward and backward chains", dict(entries=2), dict(entries=3, hows=5), qt=90)
J("C19", "ole", "h_ole_xbat", "more allocation table sectors than the header has room for", {}, {}, xargs=["--steps", "60000000"])
J("C19", "ole", "h_ole_large", "several sectors of both allocation tables, apart from each other", {}, {}, xargs=["--steps", "60000000"])
J("C19", "ole", "h_ole_any", "damaged header, allocation tables and directory, truncated and failing input", {}, {}, qt=90, reach=("end", "error"), xargs=["--forkread", "4"])
M("C25", "", [])
J("C25", "enc", "h_enc_bytes", "conversion to bytes of every text and every split of the input", dict(len=3, ops=1), dict(len=4, ops=2), reach=("end", "error", "done"))
J("C25", "enc", "h_enc_chars", "conversion to characters of every text and every split of the input", dict(len=3, ops=1), dict(len=4, ops=2), reach=("end", "error", "done"))
J("C25", "enc", "h_enc_bytes_long", "the same at the end of the conversion buffer", dict(len=3, ops=1, lead=1, chunk=1), dict(len=4, ops=2, lead=1, chunk=1), reach=("end", "error", "done"))
J("C25", "enc", "h_enc_chars_long", "the same at the end of the conversion buffer", dict(len=3, ops=1, lead=1, chunk=1), dict(len=4, ops=2, lead=1, chunk=1), reach=("end", "error", "done"))
J("C25", "enc", "h_enc_err", "the input fails at any byte", dict(len=3, ops=1, chunk=0, err=1), dict(len=4, ops=2, chunk=0, err=1), reach=("end", "error", "done"))
J("C25", "enc", "h_enc_long", "texts over several conversion buffers", dict(len=1, ops=0), dict(len=2, ops=1), xargs=["--steps", "60000000"], reach=("end", "error", "done"))
J("C25", "enc", "h_enc_unknown", "unknown encodings", {}, {}, reach=("done",))
M("C20", "", [])
J("C20", "sdf", "h_sdf", "every sequence of molecules, delimiters at every position relative to the reads", dict(toks=4, hows=3), dict(toks=6, hows=4), reach=("end",), qt=90)
J("C20", "sdf", "h_sdf_err", "failing input and input that cannot be moved back", dict(toks=3), dict(toks=6), reach=("end", "error"), qt=90)
J("C20", "sdf", "h_sdf_header", "headers", {}, {}, reach=("yes", "no"))
J("C20", "sdf", "h_sdf_header_any", "any bytes as header", dict(len=13), dict(len=17))
M("C26", "", [])
J("C26", "proc", "h_proc", "processes of five kinds with an input, every schedule", dict(len=3, cap=2, faults=0, chunk=1), dict(len=4, cap=2, faults=1, chunk=0), reach=("end", "done"), qt=90)
J("C26", "proc", "h_proc_err", "the input fails at any byte", dict(len=2, cap=1, faults=0, err=1, chunk=1), dict(len=3, cap=2, faults=1, err=1, chunk=0), reach=("error", "done"))
J("C26", "proc", "h_proc_noinput", "a process without input", dict(input=0, cap=2, faults=1), dict(input=0, cap=4, faults=3), reach=("end", "done"))
J("C26", "proc", "h_proc_large", "amounts around the sizes of the buffers", {}, {}, reach=("end", "done"), xargs=["--steps", "60000000"])
J("C26", "proc", "h_proc_start", "starting the process", {}, {}, reach=("exec", "noexec", "nostart"))
M("C27", "", [])
J("C27", "reader", "h_open", "every request into an archive with members of every name", dict(members=2, namelen=3, reqlen=3, dirs=1), dict(members=3, namelen=3, reqlen=4, dirs=1), reach=("end", "found", "none"), qt=90)
J("C27", "reader", "h_open_nested", "the same with archives, plain or compressed, in the archive", dict(members=2, namelen=2, reqlen=4, nest=1), dict(members=2, namelen=3, reqlen=6, nest=1), reach=("end", "found", "none"), qt=90)
M("C28", "", [])
J("C28", "reader", "h_list", "listings of every directory", dict(members=2, namelen=3, dirs=1), dict(members=3, namelen=3, dirs=1), reach=("end", "list"), qt=90)
J("C28", "reader", "h_list_nested", "the same with archives, plain or compressed, in the archive", dict(members=2, namelen=2, nest=1), dict(members=2, namelen=3, nest=1), reach=("end", "list"), qt=90)
J("C28", "reader", "h_stat", "entries of every path", dict(members=1, namelen=3, reqlen=3, nest=1), dict(members=2, namelen=3, reqlen=5, nest=1), reach=("end",), qt=90)
J("C28", "reader", "h_plain", "files that are no archives", dict(ops=1), dict(ops=3), reach=("end",))
J("C28", "reader", "h_history", "histories of listings, copies and releases of listings", dict(ops=5), dict(ops=6), reach=("end",), qt=90)
J("C28", "reader", "h_history_mix", "histories of listings, entries and streams", dict(ops=4, mix=1), dict(ops=5, mix=1), reach=("end",), qt=90)

# C29: the histories of the other checks, with an assertion that all memory has been released when the objects are gone
M("C29", "", [])
def L(harness, entry, quick, thorough, **kw): J("C29", harness, entry, "memory after " + entry, None if quick is None else dict(quick, leak=1), dict(thorough, leak=1), labels="released", **kw)
L("buffered", "h_buf_reset", dict(len=3, ops=2), dict(len=3, ops=3))
L("buffered", "h_wbuf_reset", dict(len=2, ops=2), dict(len=2, ops=3))
L("buffered", "h_sbuf_reset", dict(len=3, ops=2), dict(len=3, ops=3))
L("buffered", "h_buf_err", dict(len=2, ops=2, err=1), dict(len=2, ops=3, err=1))
L("streams", "h_sstream_char", dict(len=2, ops=2), dict(len=3, ops=2))
L("streams", "h_sub_reset", dict(len=2, ops=2), dict(len=3, ops=2))
L("streams", "h_term_reset", dict(len=2, ops=2), dict(len=3, ops=2))
L("streams", "h_event_reset", dict(len=2, ops=2), dict(len=3, ops=2))
L("text", "h_search_requery", dict(hay=3, needle=2), dict(hay=4, needle=3), reach=("found", "none"))
L("files", "h_file", dict(len=2, ops=2), dict(len=3, ops=2))
L("files", "h_file_err", dict(len=2, ops=2), dict(len=3, ops=2))
L("files", "h_mmap", dict(len=2, ops=2), dict(len=3, ops=2))
L("files", "h_skipfile", dict(len=2, ops=2), dict(len=3, ops=2))
L("files", "h_skipfile2", dict(len=2, ops=2), dict(len=3, ops=2))
L("codec", "h_b64_stream", dict(len=4, ops=2), dict(len=5, ops=2))
L("mail", "h_mail_fields", dict(len=1), dict(len=2))
L("mail", "h_mail_any", dict(len=3), dict(len=4))
L("mail", "h_mail_word_any", dict(len=2), dict(len=3))
L("mail", "h_mail_parts", dict(parts=1, len=1), dict(parts=2, len=1))
L("mail", "h_mail_nested", dict(parts=1, len=1), dict(parts=2, len=1))
L("mail", "h_mail_err", {}, {})
L("arch", "h_tar", dict(entries=1, len=1), dict(entries=2, len=1))
L("arch", "h_tar_any", dict(dig=1), dict(dig=2))
L("arch", "h_ar", dict(entries=1, len=1), dict(entries=2, len=1))
L("arch", "h_ar_any", None, dict(dig=1))
L("arch", "h_cpio", dict(entries=1, len=1, nlen=2), dict(entries=2, len=1, nlen=2))
L("arch", "h_cpio_any", dict(dig=1), dict(dig=2))
L("zip", "h_zip", dict(entries=1, len=1), dict(entries=2, len=1))
L("zip", "h_zip_any", dict(len=1), dict(len=2))
L("rpm", "h_rpm", dict(entries=1, len=1, hows=2), dict(entries=1, len=1, hows=2))
L("rpm", "h_rpm_any", {}, {})
L("ole", "h_ole", dict(entries=1), dict(entries=2))
L("ole", "h_ole_any", {}, {}, xargs=["--forkread", "4"])
L("sdf", "h_sdf", dict(toks=3, hows=3), dict(toks=4, hows=3))
L("sdf", "h_sdf_err", dict(toks=2), dict(toks=3))
L("codecs", "h_gz_gzip", dict(len=2, ops=1, chunk=2), dict(len=2, ops=1, chunk=0))
L("codecs", "h_gz_err", dict(len=2, ops=1, chunk=2, err=1), dict(len=3, ops=1, chunk=2, err=1))
L("codecs", "h_gz_magic", {}, {}, reach=("rejected", "accepted"))
L("codecs", "h_bz", dict(len=2, ops=1), dict(len=3, ops=1))
L("codecs", "h_bz_err", dict(len=2, ops=1), dict(len=2, ops=1))
L("codecs", "h_bz_magic", {}, {}, reach=("rejected", "accepted"))
L("codecs", "h_lz", dict(len=2), dict(len=3))
L("codecs", "h_lz_err", dict(len=2), dict(len=2))
L("codecs", "h_lz_magic", {}, {}, reach=("rejected", "accepted"))
L("enc", "h_enc_bytes", dict(len=2, ops=1), dict(len=3, ops=1))
L("enc", "h_enc_chars", dict(len=2, ops=1), dict(len=3, ops=1))
L("enc", "h_enc_err", dict(len=2, ops=1, chunk=0, err=1), dict(len=3, ops=1, chunk=0, err=1))
L("proc", "h_proc", dict(len=2, cap=2, faults=0, chunk=1), dict(len=3, cap=2, faults=0, chunk=1))
L("proc", "h_proc_err", dict(len=2, cap=1, faults=0, err=1, chunk=1), dict(len=2, cap=1, faults=0, err=1, chunk=1))
L("reader", "h_open", dict(members=1, namelen=3, reqlen=3, dirs=1), dict(members=2, namelen=3, reqlen=3, dirs=1))
L("reader", "h_open_nested", dict(members=1, namelen=2, reqlen=3, nest=1), dict(members=2, namelen=2, reqlen=3, nest=1))
L("reader", "h_list", dict(members=2, namelen=3, dirs=1), dict(members=2, namelen=3, dirs=1))
L("reader", "h_list_nested", dict(members=1, namelen=3, nest=1), dict(members=2, namelen=2, nest=1))
L("reader", "h_stat", dict(members=1, namelen=2, reqlen=2, nest=1), dict(members=1, namelen=3, reqlen=3, nest=1))
L("reader", "h_history", dict(ops=3), dict(ops=5))
L("reader", "h_history_mix", dict(ops=3, mix=1), dict(ops=4, mix=1))

M("C30", "", [])
J("C30", "comp", "h_comp", "every input, splits, reads, skips and rewinds, three ways in which deflate produces output", dict(len=3, ops=2), dict(len=4, ops=3), qt=90)
J("C30", "comp", "h_comp_err", "the same with failing input", dict(len=3, ops=2), dict(len=4, ops=2), reach=("end", "error"))
J("C30", "comp", "h_comp_init", "failing initialisation", {}, {})

J("C06", "files", "h_opener", "files opened and examined by name, every mode, size and time", dict(len=3, ops=1), dict(len=4, ops=2), reach=("end", "entry", "opened"))
J("C06", "files", "h_file_long", "sizes and amounts around the sizes of the buffers", dict(ops=2), dict(ops=3))
J("C06", "files", "h_file_huge", "files of more than 2 and 4 GB", dict(ops=2), dict(ops=3))

M("C31", "", [])
for _e, _w in (("h_buf_long", "BufferedStream<char>"), ("h_wbuf_long", "BufferedStream<wchar_t>"), ("h_sbuf_long", "SkippingBufferedStream<char>")):
    J("C01" if _e == "h_buf_long" else "C02", "long", _e, _w + ": sizes, pieces and amounts around and beyond the sizes of the buffer", dict(ops=2), dict(ops=3))
J("C02", "long", "h_buf_long_reset", "BufferedStream<char>: the same with resets", dict(ops=2), dict(ops=3))
J("C01", "long", "h_buf_many", "long data read in many steps", {}, {})
J("C04", "long", "h_term_long", "long terminators and data, beginnings of the terminator in the data", dict(ops=1, full=1), dict(ops=2, full=1), xargs=["--steps", "60000000"], reach=("end", "eof"))
J("C07", "long", "h_search_long", "queries of up to 500 characters, plain and periodic", dict(full=1), dict(full=1), xargs=["--steps", "60000000"], reach=("found", "none"))
J("C08", "long", "h_event_long", "data of up to 70000 bytes, amounts around the sizes of buffers", dict(ops=1), dict(ops=2), xargs=["--steps", "60000000"])
J("C09", "text", "h_utf8_long", "bytes after long valid text", dict(sym=2), dict(sym=3), xargs=["--steps", "60000000"], reach=("valid", "invalid", "unfinished"))
J("C13", "mail", "h_mail_long", "long values, words, folded and many headers", {}, {}, xargs=["--steps", "60000000"])
J("C21", "mail", "h_mail_parts_long", "long boundaries and parts, many parts, lines that begin like a delimiter", {}, {}, xargs=["--steps", "60000000"])
for _p, _e in (("C22", "h_gz_long"), ("C23", "h_bz_long"), ("C24", "h_lz_long")): J(_p, "codecs", _e, "long data, pieces and amounts around and beyond the sizes of the buffers", dict(ops=1), dict(ops=2), xargs=["--steps", "600000000"], reach=("end", "error", "done"))
J("C30", "comp", "h_comp_long", "long data, pieces and amounts around and beyond the sizes of the buffers", dict(ops=1), dict(ops=2), xargs=["--steps", "600000000"], reach=("end", "error"))
J("C20", "sdf", "h_sdf_long", "long and many molecules, beginnings of the delimiter anywhere", {}, {}, xargs=["--steps", "600000000"])
for _p in ("C27", "C28"): J(_p, "reader", "h_big", "many members, long names, deep directories, archives in archives in archives", dict(ops=1), dict(ops=2), xargs=["--steps", "600000000"], reach=("end", "found", "none", "list"))
J("C31", "detect", "h_magic", "every beginning of every size for the formats with a magic number", {}, {}, reach=("yes", "no"))
J("C31", "detect", "h_tarhead", "tar headers with arbitrary bytes at the positions that matter", dict(set=2), dict(set=4), reach=("yes", "no"))
J("C31", "detect", "h_mailhead", "every beginning of a mail", dict(len=4), dict(len=6), reach=("yes", "no"))
J("C31", "detect", "h_chooser", "the kind of substream provider chosen for every input", dict(len=2), dict(len=3), reach=("end", "mail", "zip", "sdf", "none"))
J("C24", "lzma", "h_lzma_packets", "the bundled decoder: every sequence of packets after four beginnings, five kinds of ends, splits", dict(packets=1), dict(packets=2), reach=("end", "wrong"), qt=90)
J("C24", "lzma", "h_lzma_bits", "the bundled decoder against a reference decoder: arbitrary compressed bits", dict(bits=8, tail=4), dict(bits=8, tail=5, pres=4, backs=6), reach=("missing", "damaged"), qt=90)
