#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech],
                   observe_at=list(observe), hook_needed=None)))

PGS = ["src/pgs/decoder.rs","src/pgs/segment.rs","src/pgs/sup.rs","src/pgs/mod.rs","src/pgs/ods.rs","src/pgs/pds.rs"]
VOB = ["src/vobsub/sub.rs","src/vobsub/decoder.rs","src/vobsub/img.rs","src/vobsub/mpeg2/ps.rs","src/vobsub/mpeg2/pes.rs","src/vobsub/mpeg2/clock.rs"]

p("C01","PGS subtitles decode exactly, however the bytes are delivered",
 "Iterating any well-formed PGS (.sup) stream made of show/hide display-set pairs yields exactly its subtitles, once each and in order, each spanning the timestamps of the pair's two END segments (90 kHz ticks / 90, rounded down, full 32-bit range), and the times-only decoder yields the same spans as the times-and-image decoder; bytes of segments the decoder does not need (composition, window, decode timestamps, segment payloads it skips) have no influence. A pair that carries no bitmap yields exactly one missing-image error in its place from the times-and-image decoder and leaves its neighbours untouched, and a palette update in a pair (with or without a bitmap) is never an error by itself. This holds for every legal way a buffered seekable reader can deliver the bytes: any chunking, any buffer capacity, any number of interrupted (EINTR-style) reads.",
 ["schedules","inputs"],
 "every well-formed stream of show/hide pairs x every sequence of chunk sizes, buffer capacities and interruptions of the reader",
 "two fixture files read through one 8 KiB BufReader over an uninterrupted file; no test has a chunk boundary inside a header/payload or an interrupted read",
 PGS, [("pair END segments into a span","src/pgs/decoder.rs parse_next"),("segment header parse","src/pgs/segment.rs read_header"),("skip of unused segments","src/pgs/mod.rs ReadExt::skip_data")],
 [("reader position","where the next segment header is expected","SupParser.reader")], ["items yielded by SupParser with DecodeTimeOnly / DecodeTimeImage"])

p("C02","PGS bitmaps come out pixel for pixel, however the bytes are delivered",
 "For every well-formed PGS subtitle whose bitmap is carried by one object in one or two fragments (the last one, with the last palette before it, if several are defined before it is shown), the decoded image has the encoded width and height and its pixel sequence is exactly the encoded one: the luminance and alpha of the palette entry whose id the pixel names (whatever ids the palette lists), or white transparent for an id the palette lacks; its iterator reports the exact number of pixels left. Rendering it gives exactly those pixels passed through the caller's conversion, row-major at width x height, and rendering for OCR gives the same surrounded by the requested border of the background colour (by default five white pixels); the library's own threshold conversions turn exactly the pixels whose alpha and luminance reach their thresholds black and the others white. This holds for every legal delivery of the stream by the reader and every legal run-length encoding of the rows.",
 ["schedules","inputs"],
 "every bitmap, palette, run-length encoding choice, fragment split point, border and conversion x every reader chunking/interruption",
 "no test looks at a single PGS pixel; the fixtures never split an object and list only contiguous palette ids",
 ["src/pgs/ods.rs","src/pgs/pds.rs","src/pgs/pgs_image.rs","src/pgs/u24.rs","src/pgs/decoder.rs"],
 [("object fragment reassembly","src/pgs/ods.rs read"),("palette lookup","src/pgs/pds.rs Palette::get"),("run-length decode","src/pgs/pgs_image.rs RlePixelIterator"),("rendering","src/pgs/pgs_image.rs RleToImage")],
 [("prev_ods","partially received object","src/pgs/decoder.rs")], ["RleEncodedImage iteration, RleToImage::to_image, ToOcrImage::image"])

p("C03","PGS parsing can stop after any subtitle and resume with none lost",
 "After any item delivered from a well-formed PGS stream, the reader stands exactly behind the last segment of that item's pair, so dropping the parser at that point (crash, cancellation, hand-over) and starting a new one, with either decoder, on the same reader or on a reader re-opened at the recorded offset continues with the next subtitle: no subtitle is lost, repeated or altered. This holds for every reader delivery schedule and any number of stop points.",
 ["crash_points","schedules","inputs"],
 "every well-formed stream x every set of stop/restart points x every reader delivery schedule and decoder choice at each restart",
 "tests only ever drain one parser from the start of a file to its end",
 PGS, [("no read-ahead past the END segment","src/pgs/decoder.rs parse_next"),("parser keeps no state between items","src/pgs/sup.rs SupParser::next")],
 [("reader position","durable resume point","caller-owned reader")], ["stream position after each item","items of the restarted parser"])

p("C04","A PGS read failure is reported where it strikes, never hidden",
 "If the reader fails (any error other than an interruption or an end-of-file indication, from a read, a buffer fill or a seek) while a PGS stream is iterated, every subtitle whose bytes were delivered before the failure is yielded unchanged and the failure then appears as an error item: it never shows up as a normal end of stream, a panic, or an altered or invented subtitle. Nothing is ever printed on the process's standard output.",
 ["fault_sequences","schedules","inputs"],
 "every well-formed stream x every failure position, error kind and failing operation (read, fill, seek) x every delivery schedule",
 "no test uses a reader that fails",
 PGS, [("error mapping of header reads","src/pgs/segment.rs read_header"),("error mapping of skips","src/pgs/mod.rs skip_data"),("error mapping of payload reads","src/pgs/ods.rs, src/pgs/pds.rs")],
 (), ["items yielded by SupParser; bytes written to fd 1"])

p("C05","A cut-off PGS stream yields exactly the subtitles before the cut",
 "When a well-formed PGS stream is cut at an arbitrary byte (writer crashed, download stopped), iterating it with either decoder yields every subtitle whose bytes lie wholly before the cut, unchanged and in order, then at most one error item, then ends. It never panics and never yields a subtitle that was not completely present, and a cut inside the payload of a palette or bitmap segment the decoder needs is reported as an error rather than as a clean end.",
 ["crash_points","schedules","inputs"],
 "every well-formed stream x every cut position x every delivery schedule",
 "no test reads a truncated stream",
 PGS, [("end-of-file handling","src/pgs/segment.rs read_header"),("end-of-stream state checks","src/pgs/decoder.rs DecodeTimeImage")],
 (), ["items yielded by SupParser"])

p("C06","Damaged PGS data is an error, never a crash or a broken image",
 "However a PGS stream is damaged in storage (flipped or overwritten bytes; lost, repeated or swapped segments; damaged length, size, flag, palette or run-length fields), subtitles wholly before the first damaged byte are yielded unchanged, iteration never panics or overflows, and it ends after a number of items bounded by the stream length. Every image yielded can be iterated and rendered without a panic, with as many pixels as its width x height, and no single field makes the parser or the renderer claim memory out of proportion to a 16 MiB object plus what the delivered runs really encode.",
 ["fault_sequences","inputs"],
 "every well-formed stream x every sequence of storage faults applied to its bytes or segments",
 "no test feeds a damaged stream",
 PGS+["src/pgs/pgs_image.rs"], [("field validation","src/pgs/ods.rs, src/pgs/pds.rs"),("run-length validation","src/pgs/pgs_image.rs")],
 (), ["items yielded, panics, peak heap"])

p("C07","PGS iteration always ends, and once ended it stays ended",
 "Once PGS iteration has reported its end it reports the end for ever, even if more bytes become readable afterwards (the file is still being written). A segment header without the PGS signature or with an unknown segment type is reported as an error right after the subtitles before it. After an error that leaves the reader at an unknown place in the stream (a read failure or such broken framing) the iteration ends instead of reporting errors endlessly or resuming from a guessed position, so a reader that keeps failing, or any damaged stream, leads to the end after a bounded number of items.",
 ["schedules","fault_sequences","histories"],
 "every stream x every history of end-of-file, growth, transient and persistent failures of the reader, with any number of further calls after the end",
 "tests stop at the first end-of-stream and never grow the source or keep it failing",
 ["src/pgs/sup.rs","src/pgs/decoder.rs","src/pgs/segment.rs"], [("fused-iterator promise","src/pgs/sup.rs FusedIterator"),("error classification","src/pgs/sup.rs SupParser::next")],
 [("finished","iteration is over","src/pgs/sup.rs")], ["items yielded by repeated next()"])

p("C08","VobSub subtitles decode exactly, however they are cut into packets",
 "For every well-formed VobSub (.sub) program stream, iteration yields exactly its subtitles, once each and in order, with the encoded position and size, colour and alpha tables, start time (packet timestamp plus start delay) and end time (timestamp plus stop delay, or start plus five seconds when none is given), in milliseconds rounded down (a time that is exactly a whole millisecond may come out one less); where a control command is repeated, the first start, stop, colour, alpha and position count, and unknown commands come last in their sequence. How the subtitle's bytes are split over packets (with less than 64 KiB of other packets between them), pack and header stuffing, decode timestamps, packs of other streams and bytes between packs, and how the file is delivered by read calls have no influence on the result.",
 ["schedules","inputs"],
 "every subtitle sequence x every packetisation, stuffing, interleaving with foreign packets and padding x every sequence of short or interrupted file reads",
 "three fixture files, at most four packets per subtitle, asserting only the first subtitle's fields (the time asserts are one-sided); no interleaving, stuffing or short reads",
 VOB+["src/content/area.rs"], [("reassembly of subtitle packets","src/vobsub/sub.rs next_sub_packet"),("packet search and parse","src/vobsub/mpeg2/ps.rs PesPackets"),("control sequence walk","src/vobsub/sub.rs subtitle"),("default end time","src/vobsub/decoder.rs")],
 [("remaining","unparsed rest of the program stream","src/vobsub/mpeg2/ps.rs")], ["items yielded by Sub::subtitles"])

p("C09","VobSub bitmaps come out pixel for pixel, however they are packetised",
 "For every well-formed VobSub subtitle, the decoded 2-bit bitmap is exactly the encoded one (even rows from the first field, odd rows from the second, every run-length form including fill-to-end-of-line, fields that share bytes), whatever the packetisation and file delivery. Rendering it maps each pixel through the subtitle's colour and alpha tables and the 16-colour palette by the caller's conversion, row-major at the subtitle's size, and rendering for OCR paints pixels whose palette colour is visible (non-zero alpha and luminance) in the text colour and everything else, including the requested border, in the background colour.",
 ["schedules","inputs"],
 "every bitmap and run-length encoding choice x palettes, tables, borders, conversions x packetisations and file read schedules",
 "no test checks a decoded VobSub pixel or a rendering",
 ["src/vobsub/img.rs","src/vobsub/sub.rs","src/vobsub/palette.rs","src/image/mod.rs"], [("scan-line decode","src/vobsub/img.rs scan_line/decompress"),("field offsets","src/vobsub/img.rs VobSubRleImageData::new"),("rendering","src/vobsub/img.rs VobSubToImage, VobSubOcrImage")],
 (), ["VobSubIndexedImage::raw_image, VobSubToImage::to_image, VobSubOcrImage::image, palette_rgb_to_luminance"])

p("C10","A lost VobSub pack costs only the subtitle it belonged to",
 "If whole packs of a well-formed one-track VobSub stream with distinct timestamps are lost (unreadable sectors), with no two neighbouring subtitles both losing packs, every subtitle that kept all its packs is still yielded exactly and in order. A subtitle that lost some of its packs is never yielded as a success, in particular never completed with bytes of another subtitle, and unless all its packs are gone its loss is reported by at least one error item.",
 ["fault_sequences","inputs"],
 "every well-formed stream (subtitles with distinct timestamps, the timestamp in a subtitle's first packet only) x every set of lost packs sparing one of any two neighbouring subtitles",
 "no test loses a packet",
 ["src/vobsub/sub.rs","src/vobsub/mpeg2/ps.rs"], [("subtitle boundary detection","src/vobsub/sub.rs next_sub_packet")],
 [("pending packet","first packet of the next subtitle met while the previous one is incomplete","src/vobsub/sub.rs")], ["items yielded by Sub::subtitles"])

p("C11","A cut-off VobSub stream yields exactly the subtitles before the cut",
 "When a well-formed VobSub stream is cut at an arbitrary byte, iteration yields every subtitle whose packets lie wholly before the cut, unchanged and in order, then at most one error item, then ends and stays ended. It never panics or yields a subtitle that was not completely present, and if part of a subtitle's payload made it into the file the loss of the rest is reported as an error rather than as a clean end.",
 ["crash_points","inputs"],
 "every well-formed stream x every cut position x file read schedules",
 "no test reads a truncated .sub file",
 ["src/vobsub/sub.rs","src/vobsub/mpeg2/ps.rs","src/vobsub/mpeg2/pes.rs"], [("incomplete packet handling","src/vobsub/mpeg2/ps.rs PesPackets::next"),("incomplete subtitle handling","src/vobsub/sub.rs next_sub_packet")],
 (), ["items yielded by Sub::subtitles"])

p("C12","Damaged VobSub data is an error, never a crash, and decoding recovers",
 "However a VobSub stream is damaged in storage (flipped or overwritten bytes, lost, repeated or swapped byte ranges; damaged sizes, offsets, coordinates, run lengths or control sequences), iteration never panics or overflows, ends after a bounded number of items, and every subtitle yielded has as many pixels as its area, each below 4. Subtitles wholly before the damage are yielded unchanged, and decoding recovers: every subtitle (timestamps being distinct) that starts more than 128 KiB and a pack header behind the last damaged byte is yielded unchanged.",
 ["fault_sequences","inputs"],
 "every well-formed stream without pack-header look-alikes in payloads x every sequence of storage faults",
 "two valid fuzz-corpus seeds are replayed; no damaged stream is",
 VOB, [("resynchronisation on pack headers","src/vobsub/mpeg2/ps.rs PesPackets::next"),("offset checks","src/vobsub/sub.rs subtitle, src/vobsub/img.rs"),("run-length error mapping","src/vobsub/img.rs decompress")],
 (), ["items yielded, panics, peak heap"])

p("C13","The index file's palette and language are read exactly or not at all",
 "Reading a VobSub index (.idx), from a reader or a file, yields exactly the sixteen palette colours and the language code it states (the default palette and no language when it states none; the last statement wins), whatever the other lines, the LF or CRLF line ends, how the reader delivers the bytes, and whatever was read before. A malformed (non-empty) palette value, invalid text or any read failure is an error, and a read failure is passed through the caller's error mapping with its cause intact, so a palette or language that is not in the file is never returned.",
 ["schedules","fault_sequences","inputs","histories"],
 "every index text x every chunking, buffer capacity, interruption and failure position x any history of earlier reads in the process",
 "one fixture, two of its sixteen colours checked, read in one go",
 ["src/vobsub/idx.rs","src/vobsub/palette.rs"], [("line loop","src/vobsub/idx.rs read_index"),("palette parse","src/vobsub/palette.rs palette")],
 (), ["Index::read_index, Index::open, Index::palette, Index::lang"])

p("C14","SRT and WebVTT output is exact, or an error after an exact prefix",
 "Writing subtitles produces exactly the specified text: for SRT a 1-based counter, a line 'start --> end' with comma decimals, the text and a blank line; for WebVTT the same without counter and with dot decimals; times are [-]HH:MM:SS and three millisecond digits for every time whose negation is representable (hours growing beyond two digits), and a time's value in seconds is its milliseconds over a thousand. However the writer accepts the bytes (short or interrupted writes), a success means every byte was accepted once and in order, and when the writer fails or stops accepting, that failure is returned and what was accepted is an exact prefix of the text.",
 ["schedules","fault_sequences","inputs"],
 "every list of subtitles (every time except the single value i64::MIN) x every sequence of short, interrupted, refused or failing writes",
 "no test writes an SRT or WebVTT file at all",
 ["src/srt.rs","src/webvtt.rs","src/time/time_point.rs"], [("entry formatting","src/srt.rs write_line, src/webvtt.rs write_line"),("time formatting","src/time/time_point.rs fmt_separator")],
 (), ["bytes accepted by the writer; returned result"])

p("C15","Dumping images either stores every image intact or says which failed",
 "When dumping images into a folder reports success, the folder (created with its parents if absent, even if another process creates it meanwhile) holds for every image a file named by its zero-based, six-digit position with extension png that decodes to the same size and pixels (and holds nothing else, whatever a file of that name held before), and other files are untouched. When creating the folder or storing an image fails in any way (an image without pixels, no space, I/O error, no permission, too many files, at any step including the last buffered bytes), the result is an error naming the folder or the first failing file, with all images before it stored intact and nothing stored after it.",
 ["fault_sequences","schedules","crash_points","inputs"],
 "every list of images (pixel types, sizes) and initial folder state x every sequence of file-system faults, short and interrupted writes and concurrent directory creation",
 "no test dumps an image",
 ["src/image/utils.rs"], [("folder creation","src/image/utils.rs dump_images"),("image encode and store","src/image/utils.rs dump_image")],
 (), ["files on the simulated disk; returned result"])

p("C16","Opening and probing files reports every failure and misreads none",
 "Opening a .sub, .idx or .sup file or probing a file's type returns what the stored bytes say, for every way the system delivers them (short or interrupted reads), and releases the file. When the file cannot be opened or a read fails, the result is an error (for open failures, and for every failure of the .sub, .idx and probe operations, one that names the given path and carries the system's error), never a success built from part of the file; probing answers true exactly when the file starts with the format's signature (a file shorter than the signature is an error or a no).",
 ["fault_sequences","schedules","inputs"],
 "every file content (including shorter than a signature) x every sequence of system-call results (short read, interruption, error at any call), missing files, directories, permission failures",
 "tests open existing fixtures on a healthy disk",
 ["src/vobsub/probe.rs","src/vobsub/sub.rs","src/vobsub/idx.rs","src/pgs/sup.rs"], [("whole-file read","src/vobsub/sub.rs Sub::open"),("signature compare","src/vobsub/probe.rs has_magic"),("error mapping","mkerr closures")],
 (), ["returned results; open file descriptors afterwards"])

p("C17","Parsers and writers never influence one another",
 "Any number of parsers, index readers, renderers and writers used at the same time, from any number of threads or interleaved on one thread, over separate or shared inputs, and even from inside one another's reader, writer, iterator and conversion callbacks, give each the same results as if it ran alone, whatever the interleaving, whatever ran before in the process, and whatever faults strike the others (failing or panicking callbacks included). No interleaving makes them block each other for ever.",
 ["schedules","histories","fault_sequences"],
 "every set of jobs x every interleaving of their steps (at reader, writer, system-call, logging, allocation and lock points, callbacks, and any branch or memory access of the library) x faults in some of them, including the very first use in a process",
 "every test drives one parser on one thread",
 ["src/vobsub/idx.rs","src/vobsub/sub.rs","src/pgs/sup.rs","src/srt.rs","src/image/utils.rs"], [("process-wide lazily built patterns","src/vobsub/idx.rs KEY_VALUE statics")],
 [("KEY_VALUE","lazily initialised, shared by all threads","src/vobsub/idx.rs")], ["per-job results compared with a job run alone"])

p("C18","A conversion killed at any point and restarted produces the same output",
 "Converting a stored subtitle file (open, iterate, write the times as SRT, dump the images) and having the process die at any system call leaves only a prefix of the work behind: every output file but the one being written is complete and correct. Running the same conversion again on what is left produces exactly the output of an undisturbed run, with the n-th image and the n-th entry belonging to the n-th subtitle, and if every step reports success nothing is missing.",
 ["crash_points","fault_sequences","histories"],
 "every PGS or VobSub input x every crash point (system call) and write-fault sequence x any number of crash/restart rounds",
 "no test runs a conversion, let alone kills one",
 ["src/image/utils.rs","src/srt.rs","src/pgs/sup.rs","src/vobsub/sub.rs"], [("sequential dump with truncate-on-create","src/image/utils.rs dump_images")],
 [("output folder","durable state surviving the crash","disk")], ["files on the simulated disk after each crash and after the final run"])

p("C19","Iterating needs memory for one subtitle, not for the stream",
 "While a PGS stream of any length is iterated and each item is dropped after use, peak heap use stays below a fixed allowance plus a small multiple of the largest single subtitle; the reader is consumed as items are requested, never read to the end up front. While a VobSub stream is iterated, peak heap use beyond the file's own bytes obeys the same bound.",
 ["inputs","schedules","histories"],
 "every stream length and subtitle mix x reader buffer capacities and delivery schedules",
 "fixtures are a few hundred KiB and no test measures memory",
 ["src/pgs/decoder.rs","src/pgs/sup.rs","src/vobsub/sub.rs"], [("per-subtitle buffers","src/pgs/ods.rs, src/vobsub/sub.rs next_sub_packet")],
 (), ["peak of the simulator's allocator; reader position"])

p("C20","Luma thresholding turns bright opaque pixels black and the rest white",
 "The two luma/alpha-to-luma conversions return the minimum value exactly for pixels whose alpha and luminance both reach their thresholds, and the maximum value otherwise, for every pixel type and every threshold.",
 ["inputs"], "every pixel value, pixel type and threshold pair", "no test calls the conversions",
 ["src/image/pixels.rs"], [("threshold compare","src/image/pixels.rs")], (), ["returned pixel"])

p("C21","An area is accepted exactly when it spans at least two rows and columns",
 "Building an area from corner values succeeds exactly when the right edge lies strictly right of the left edge and the bottom strictly below the top; the accepted area reports its left, top, width and height (inclusive corners) exactly.",
 ["inputs"], "every quadruple of coordinates", "no test builds an invalid area",
 ["src/content/area.rs"], [("corner comparison","src/content/area.rs TryFrom")], (), ["Area::try_from and accessors"])

p("C22","An undecodable subtitle is an error in its place and costs only itself",
 "A PGS pair whose bitmap has no palette before it, whose object never gets its last fragment or whose runs describe fewer than width x height pixels yields one or two error items in its place from the times-and-image decoder (never a subtitle) and its normal span from the times-only decoder; a VobSub subtitle that lacks a start command, position, colours, transparency or bitmap offsets, whose position does not span two rows and two columns, whose control block, next-sequence pointer or bitmap fields lie outside its data or run backwards, whose first line in either field is longer than its width, whose first packet has no timestamp or whose size is too small for a header or cuts its control block short yields an error per subtitle (or per packet, when the packets can't be told to belong together) and never a success. All other subtitles of the stream are yielded exactly and in order, however the bytes are delivered or packetised.",
 ["inputs","schedules","histories"],
 "every mix of decodable and undecodable subtitles x every kind of undecodability x every delivery",
 "one fixture has pairs without bitmaps; no test has an undecodable subtitle between decodable ones",
 ["src/pgs/decoder.rs","src/pgs/sup.rs","src/vobsub/sub.rs","src/vobsub/img.rs"], [("missing palette, incomplete image","src/pgs/decoder.rs DecodeTimeImage"),("which errors end the iteration","src/pgs/sup.rs next"),("missing commands, offsets","src/vobsub/sub.rs subtitle"),("scan lines","src/vobsub/img.rs scan_line")],
 [("palette, image and fragment being collected","must not outlive the pair","src/pgs/decoder.rs")], ["item sequence"])

p("C23","A caller's own PGS decoder gets exactly the bytes it asks for",
 "For every buffered seekable reader and every sequence of exact reads and skips made through the reading helpers the PGS parser offers to caller-written decoders, each read returns exactly the next bytes of the stream and each skip moves forward by exactly the number of bytes asked, whatever the chunking and however many interruptions; a reader failure or a stream that ends inside a read is an error carrying its cause, never a success. A parser built over a caller's decoder hands it the reader where the previous item left it, yields its items and errors unchanged, in order and once each, and does not call it again after it reported the end.",
 ["schedules","inputs","fault_sequences"],
 "every sequence of reads and skips x every stream x every delivery schedule, failure and buffer capacity; every decoder that yields, fails or ends at any item",
 "no test calls the reading helpers or brings a decoder of its own",
 ["src/pgs/mod.rs","src/pgs/decoder.rs","src/pgs/sup.rs"], [("exact read","src/pgs/mod.rs ReadExt::read_buffer"),("skip over or past the buffer","src/pgs/mod.rs ReadExt::skip_data"),("iteration over any decoder","src/pgs/sup.rs SupParser::next")],
 [("reader position","where the next read happens","caller-owned reader")], ["bytes read, reader position, items of SupParser with a caller's decoder"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
