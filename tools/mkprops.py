#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The only test that runs here reads a missing file and an empty file; "
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Reading arbitrary bytes is memory-safe and terminates",
     "For every byte sequence, given as a buffer of stated size or as a file, reading the tag or its header terminates and returns either nothing or a usable tag, without touching memory outside the buffer, crashing, or ending the process. "
     "Every string, text and picture of a returned tag is backed by memory of its reported size (strings are terminated), the frame payloads together never exceed the input, and the tag can be walked, written back, re-read with the same frames, and freed.",
     ["inputs"], "all buffers and files, in particular tags with lying sizes, unterminated or truncated strings, empty frames, and cut or garbage headers",
     TESTS + "no malformed tag is ever parsed, and the space of hostile inputs cannot be listed by hand.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/tag_header.c", "src/modules/frame_header.c", "src/modules/frame.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "src/modules/char_stream.c"],
     [("frame headers that do not fit the remaining tag bytes are refused", "FrameHeader_parse"), ("payload parsing on a bounded, zero-extended copy", "TextFrame_parse, CommentFrame_parse, ApicFrame_parse"), ("clamped stream reads", "CharStream_read, CharStream_seek")],
     [("CharStream.cursor/size", "position inside the input and its bound", "src/modules/char_stream.private.h")],
     ["ID3v2_read_tag_from_buffer", "ID3v2_read_tag", "ID3v2_read_tag_header", "load_tag_with_buffer"])

prop("C02", "A well-formed v2.3/v2.4 tag is read back exactly",
     "For every well-formed ID3v2.3 or ID3v2.4 tag that does not use compression, encryption or (in version 2.4, frame by frame) unsynchronisation, reading it yields exactly the frames it contains, in file order, each with its id, flags, size, text encoding and complete contents (text, comment language/description/text, picture MIME type/type/description/data, and the raw payload of any other frame), plus the version, flags, tag size and extended header size of the header and the number of padding bytes. "
     "Extended headers, padding, a footer and bytes after the tag never show up as frames, and lookup by id finds the first, respectively all, of the frames with that id.",
     ["inputs"], "all well-formed tags: both versions, all text encodings, terminated or not, multi-string text, repeated and unknown frame ids, any sizes, extended header or not, any padding",
     TESTS + "the fixture with a tag is missing, and one file would exercise one version, one encoding and one layout only.",
     ["src/modules/tag.c", "src/modules/tag_header.c", "src/modules/frame_header.c", "src/modules/frame.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "src/modules/utils.c"],
     [("tag header and extended header decoding", "TagHeader_parse, Tag_parse"), ("frame kind dispatch by id", "Frame_parse"), ("version dependent size decoding", "FrameHeader_parse, syncint_decode, btoi")],
     (), ["ID3v2_read_tag_from_buffer", "ID3v2_Tag_get_frame(s)", "public frame structs"])

prop("C03", "What is set on a tag and written is what is read back",
     "For every tag, fresh or loaded, edited with any sequence of set, add and delete calls and written to a file, reading that file yields the same frames in the same order with the same ids, flags, encodings and contents as the tag had in memory. "
     "The same holds when further edits and writes follow, for both tag versions.",
     ["inputs", "histories"], "all edit histories with all string/picture arguments, with writes at any point, for fresh, v2.3 and v2.4 tags",
     TESTS + "no write is ever executed, and hand-written tests would sample a few short strings from one starting tag.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame_header.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "src/modules/utils.c"],
     [("serialisation of the tag and of each frame kind", "Tag_to_char_stream, *_to_char_stream"), ("size encoding", "syncint_encode, itob")],
     (), ["ID3v2_write_tag followed by ID3v2_read_tag"])

prop("C04", "Writing or deleting a tag never changes the audio",
     "For every file, writing a tag leaves every byte that followed the file's original tag (every byte, if it had none) unchanged and in place right after the new tag, and replaces the old tag rather than stacking a second one. "
     "Deleting the tag leaves exactly the bytes that followed it, and leaves a file without a recognised tag untouched.",
     ["inputs", "histories"], "all audio contents and lengths (including 0xFF bytes, data that looks like a tag, and empty audio), with or without an old v2.3/v2.4 tag (also with extended header or footer), under any sequence of writes and deletes",
     TESTS + "nothing writes or deletes a tag; a sample file has one length and one content.",
     ["src/id3v2lib.c", "src/modules/tag_header.c"],
     [("copy of everything behind the old tag through a temporary file", "ID3v2_write_tag, ID3v2_delete_tag"), ("location of the end of the old tag", "ID3v2_read_tag_header, syncint_decode")],
     (), ["file bytes after ID3v2_write_tag / ID3v2_delete_tag / set_tag / remove_tag"])

prop("C05", "Every written tag is a valid ID3v2 tag",
     "For every tag with at least one frame or none, the bytes written at the start of the file form a valid ID3v2 tag of the tag's version: identifier, version, flags that announce nothing which is absent, a sync-safe tag size that spans exactly the frames and the zero padding that follows them, and frame sizes in the encoding of that version, so that an independent ID3v2 reader sees the same frames. "
     "The padding is the tag's previous padding, or 2048 bytes if it had less, and the tag in memory reports the size and padding that were written.",
     ["inputs", "histories"], "all tags reachable by loading and editing, all contents and sizes, both versions",
     TESTS + "the project's own checks read back with the same code, so a symmetric encode/decode error is invisible to them.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame_header.c", "src/modules/utils.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c"],
     [("total size computed from frames and padding", "Tag_to_char_stream"), ("minimum padding", "ID3v2_write_tag, clamp_int"), ("sync-safe encoding", "syncint_encode")],
     [("ID3v2_Tag.padding_size", "zero bytes after the last frame", "include/modules/tag.h")], ["first bytes of the written file", "ID3v2_Tag header/padding fields after the write"])

prop("C06", "Tag edits behave as operations on an ordered list of frames",
     "For every history of set, add, delete and get calls on a tag, the tag behaves as an ordered list of frames: setting replaces the first frame of that id in place or appends one, adding appends, deleting removes the first frame of that id and is a no-op if there is none, and lookups return the first or all matching frames in order. "
     "No call disturbs any other frame, the named convenience calls (title, artist, album, ...) act on their ID3v2 frame id with the documented defaults, and the reported tag size follows the frames added, replaced and removed.",
     ["histories", "inputs"], "all sequences of editing calls on fresh and loaded tags, including deletes of absent frames, deletes of the first/last/only frame, and re-adding afterwards",
     TESTS + "no editing call is executed at all; list corner cases depend on the order of many calls.",
     ["src/modules/tag.c", "src/modules/frame_list.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "include/modules/frame_ids.h"],
     [("linked list insert/replace/remove", "FrameList_add_frame, FrameList_replace_frame, FrameList_remove_frame*"), ("tag size bookkeeping", "ID3v2_Tag_set_*/add_*/delete_*")],
     [("ID3v2_Tag.frames", "ordered frame list", "include/modules/frame_list.h"), ("ID3v2_TagHeader.tag_size", "size of frames plus padding", "include/modules/tag_header.h")], ["public getters and the public frame list"])

prop("C07", "Untouched frames survive a read-modify-write byte for byte",
     "For every well-formed tag in a file, after reading it, editing or deleting some of its frames and writing it back, every frame that was not edited is still in the file, in its original order, with the identical id, flags and payload bytes, whatever its kind or text encoding and whether or not the library understands it. "
     "In particular, reading a tag and writing it back without edits changes no frame.",
     ["inputs", "histories"], "all well-formed tags (unknown frames, user text, multi-string text, UTF-8/UTF-16BE, unterminated text, unusual flags) and all edits of other frames",
     TESTS + "loss of a frame the program never looks at is invisible to tests that only check the fields they set.",
     ["src/modules/frame.c", "src/modules/tag.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "src/modules/frame_header.c"],
     [("raw carry-through of unknown frames", "Frame_parse, Frame_to_char_stream"), ("encoding byte and payload kept on parse", "TextFrame_parse, CommentFrame_parse, ApicFrame_parse")],
     (), ["file bytes compared frame by frame with an independent parser"])

prop("C08", "Every history releases all memory exactly once",
     "For every sequence of API calls, once every tag, header, list and string handed out has been released with its documented release function, no memory allocated by the library and no open file remains, and no call uses or releases memory twice. "
     "Replaced and deleted frames are released by the library itself, and unlinking a list returned by a lookup releases the list but none of the frames.",
     ["histories", "inputs"], "all call histories over the whole public API, including reads that fail, out-of-range deletes, writes, and the compatibility layer",
     TESTS + "leaks and double frees do not fail assertions, and depend on which of many paths were taken.",
     ["src/modules/frame.c", "src/modules/frame_list.c", "src/modules/tag.c", "src/id3v2lib.c", "src/id3v2lib.compat.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c"],
     [("release functions", "ID3v2_Tag_free, ID3v2_Frame_free, ID3v2_FrameList_free, ID3v2_FrameList_unlink, ID3v2_TagHeader_free, free_tag")],
     (), ["allocation and free events, AddressSanitizer, open descriptors"])

prop("C09", "Tags own their data and never alter the caller's",
     "For every setter, adder and reader, the tag keeps its own copy: modifying or freeing the argument buffers, strings or input file afterwards does not change the tag, and changing one tag does not change another, even when both were built from the same arguments or buffer. "
     "Lookups, list releases and writing do not alter the frames of the tag, reading never alters the buffer or file, and setting a frame from the tag's own current contents works.",
     ["histories", "inputs"], "all histories in which arguments are overwritten and freed right after the call, shared between tags, or taken from the tag being edited",
     TESTS + "aliasing only shows when the argument is changed later, which tests with string literals never do.",
     ["src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "src/modules/frame_header.c", "src/modules/char_stream.c", "src/modules/tag.c", "src/modules/frame_list.c"],
     [("copying constructors", "TextFrameData_new, CommentFrameData_new, ApicFrameData_new, FrameHeader_new, CharStream_from_buffer"), ("new frame is built before the old one is released", "ID3v2_Tag_set_text_frame, ID3v2_Tag_set_comment_frame, ID3v2_Tag_set_apic_frame")],
     (), ["tag contents after the arguments were destroyed"])

prop("C10", "String helpers are exact for every string",
     "For every terminated byte string, the length helpers return its length in bytes without, respectively with, its terminator, where a string that starts with a byte order mark of either order is two-byte text ending at the first aligned zero pair and any other is single-byte text; they never read beyond the terminator. "
     "Conversion to Unicode yields the byte order mark FF FE, each input byte followed by a zero byte, and a two-byte terminator, in a new string, and returns a string that already has a byte order mark unchanged.",
     ["inputs"], "all ISO-8859-1 and BOM-prefixed UTF-16 strings, including empty ones, zero bytes inside characters, and lengths of every magnitude",
     TESTS + "the helpers are never called by a test that runs.",
     ["src/modules/utils.c", "include/modules/utils.h"],
     [("byte order mark detection", "string_has_bom"), ("pairwise scan", "ID3v2_strlen"), ("widening copy", "ID3v2_to_unicode")],
     (), ["ID3v2_strlen", "ID3v2_strlent", "ID3v2_to_unicode"])

prop("C11", "Tag headers are recognised and decoded exactly",
     "For every ten bytes, reading the tag header from a buffer or a file returns nothing unless they start with the identifier ID3 and major version 3 or 4, and otherwise reports the identifier, both version bytes, the flags and the 28-bit sync-safe size. "
     "A file that is missing, unreadable or shorter than a header has no header, and neither has a buffer that is shorter.",
     ["inputs"], "all ten-byte headers (every identifier, version, flag and valid size value) and files of every length",
     TESTS + "the identifier, version and size decoding are never reached.",
     ["src/id3v2lib.c", "src/modules/tag_header.c", "src/modules/utils.c"],
     [("header decoding", "TagHeader_parse, btoi, syncint_decode"), ("short read check", "ID3v2_read_tag_header")],
     (), ["ID3v2_read_tag_header", "ID3v2_read_tag_header_from_buffer"])

prop("C12", "File and buffer readers agree and never modify the file",
     "For every byte sequence, well-formed or not, reading a tag from a file holding it gives the same result as reading it from a buffer holding it: both nothing, or the same header, padding and frames, and reading the header alone agrees with the header of the tag. "
     "The result depends only on the bytes of the tag: audio behind the tag, earlier calls and repeated reading make no difference, and the file is left unchanged.",
     ["inputs", "histories"], "all byte sequences: complete, cut short inside the tag, followed by audio, without a tag",
     TESTS + "the buffer reader is never called and the file reader never gets past the header.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/id3v2lib.compat.c"],
     [("number of bytes actually read bounds the parse", "ID3v2_read_tag"), ("parse bounded by the tag size", "Tag_parse")],
     (), ["ID3v2_read_tag", "ID3v2_read_tag_from_buffer", "load_tag", "load_tag_with_buffer"])

prop("C13", "The compatibility layer mirrors the current API",
     "For every history of compatibility-layer calls, the old-style getters and content parsers show exactly the frames, flags, payloads and contents that the current API shows for the same edits, a loaded tag's raw bytes are the tag's bytes, and writing or removing a tag has the same effect on the file. "
     "Loading from a file or buffer without a tag gives nothing, a new empty tag can be edited, written and freed like a loaded one, and setting a frame that is absent adds it.",
     ["histories", "inputs"], "all sequences of load/new, set, get, parse, write, remove and free calls with all arguments",
     TESTS + "the compatibility test needs a missing fixture and only replaces frames that already exist.",
     ["src/id3v2lib.compat.c", "include/id3v2lib.compat.h"],
     [("mirrored frame list", "frame_to_compat_frame, add_to_list, add_uniq_to_list, get_from_list"), ("delegation", "tag_set_*, set_tag, load_tag, load_tag_with_buffer")],
     [("ID3v2_tag.frames", "old-style copy of the frame list", "include/id3v2lib.compat.h")], ["compat API and the file it writes"])

prop("C14", "A write or delete that cannot be staged leaves the file intact",
     "If the target file is missing or cannot be opened, read or written, or the temporary copy cannot be created or completely written, then writing or deleting a tag returns without crashing and the file's bytes are as before (or completely as after a success), never a mixture, and no file is created. "
     "This holds for a failure setting in at any point up to the moment the finished copy starts to replace the file.",
     ["fault_sequences", "inputs"], "every open, read and write call of the operation as the onset of a persistent failure, for all tag and audio sizes",
     TESTS + "no test injects a failure.",
     ["src/id3v2lib.c"],
     [("staging in a temporary file before the target is opened for writing", "ID3v2_write_tag, ID3v2_delete_tag"), ("checks of every open and of stream errors", "ID3v2_write_tag, ID3v2_delete_tag")],
     (), ["file bytes after the call with a failing system call"])

prop("C15", "Independent tags can be used from several threads",
     "For every set of tags and files used by different threads, each by one thread only, under every interleaving each thread observes exactly the results it would observe alone, without data races. "
     "The same holds for lookups in one tag, and reads of one file or buffer, that nobody changes meanwhile. The library keeps no state between calls.",
     ["schedules", "histories"], "all interleavings of histories on disjoint tags and files, and of concurrent lookups in one tag and reads from one file or buffer",
     TESTS + "the tests are single-threaded.",
     ["src/id3v2lib.c", "src/modules/utils.c", "src/modules/char_stream.c", "src/modules/tag.c"],
     [("no shared mutable state", "all modules"), ("anonymous temporary files", "ID3v2_write_tag, ID3v2_delete_tag")],
     (), ["per-thread results compared with a serial run, ThreadSanitizer"])

prop("C16", "A tag cut short yields exactly its complete frames",
     "For every well-formed tag cut off at any byte, in a buffer or a file, reading yields the frames that lie completely before the cut, unchanged and in order, and nothing else; if the cut is inside the ten-byte header it yields no tag. "
     "The same holds when a frame in the middle claims more bytes than the tag has left, or padding starts: reading stops there and keeps all earlier frames.",
     ["inputs"], "all well-formed tags, all cut positions, all positions of an overlong frame",
     TESTS + "no truncated file is read other than the empty one.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame_header.c"],
     [("frame refused when it does not fit the remaining bytes", "FrameHeader_parse"), ("bytes actually read bound the parse", "ID3v2_read_tag")],
     (), ["ID3v2_read_tag_from_buffer", "ID3v2_read_tag"])

prop("C17", "Rewriting is stable: nothing grows, drifts or accumulates",
     "For every file, writing the same tag again, or reading the written file and writing the result back without edits, any number of times, leaves the file byte-for-byte as after the first write. "
     "A well-formed tag without extended header, footer or unsynchronisation that already has at least 2048 padding bytes is reproduced byte-for-byte by a plain read and write, and writing a tag and then deleting it restores the file as it was without tag.",
     ["histories", "inputs"], "all tags and audio contents, all numbers of rewrites, with tag edits that cancel out in between",
     TESTS + "nothing is written once, let alone twice.",
     ["src/id3v2lib.c", "src/modules/tag.c"],
     [("padding only topped up to the default", "ID3v2_write_tag"), ("size computed from frames and padding", "Tag_to_char_stream")],
     [("ID3v2_Tag.padding_size", "padding carried from read to write", "include/modules/tag.h")], ["file bytes after each write"])

prop("C18", "Sizes of every magnitude are handled exactly",
     "For every frame payload and picture from one byte to tens of megabytes, alone or among other frames and in both tag versions, setting, writing and reading back reproduces all bytes and sizes, and the audio after the tag is still found at the right place. "
     "This includes sizes just below, at and above every boundary of the 7-bit and 8-bit size encodings. A tag whose frames and padding exceed the 28 bits of the size field in its header is not written: the file stays as it was.",
     ["inputs"], "all frame sizes and tag sizes within the 28-bit limit, in particular around 2^7, 2^8, 2^14, 2^15, 2^16, 2^21 and beyond the thread stack size",
     TESTS + "no frame is ever written; a fixture has one size.",
     ["src/modules/utils.c", "src/modules/frame_header.c", "src/modules/tag.c", "src/modules/frames/apic_frame.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/id3v2lib.c"],
     [("size encoders and decoders", "syncint_encode, syncint_decode, itob, btoi"), ("heap buffers for payloads", "TextFrame_parse, CommentFrame_parse, ApicFrame_parse")],
     (), ["ID3v2_write_tag, ID3v2_read_tag, file bytes"])

prop("C19", "Repeated comments and pictures are addressed exactly",
     "For every tag with any number of comment and picture frames among other frames, the list lookups return exactly those frames in order, and deleting the comment or picture with a given index removes exactly that one, leaving all other frames in order; an index outside the list changes nothing. "
     "Setting a comment, cover or generic comment/picture frame replaces only the first of its kind, adding never replaces one, and all of this is still true after writing and reading back.",
     ["histories", "inputs"], "all arrangements and numbers of repeated frames and all indices, negative and too large ones included",
     TESTS + "the indexed deletes run on a missing fixture and only with index 0.",
     ["src/modules/tag.c", "src/modules/frame_list.c"],
     [("sublist construction", "FrameList_get_frames_by_id"), ("indexed removal", "ID3v2_Tag_delete_comment_frame, ID3v2_Tag_delete_apic_frame, FrameList_remove_frame")],
     (), ["ID3v2_Tag_get_comment_frames, ID3v2_Tag_get_apic_frames"])

prop("C20", "Calls touch nothing but their target, which keeps its identity",
     "For every file name, path form and file mode, writing, deleting, removing or reading a tag through either API affects exactly the file named: whatever its name's characters or length, and also when it is reached through a relative path, a symbolic link or one of several hard links. "
     "Afterwards no file was created, removed, renamed or otherwise changed (neither beside the target nor in the working or temporary directory), the target is the same file with its owner, mode and links, reading has written nothing at all, and the process has its working directory, umask, locale, environment, signal handlers, timers and open files as before, with nothing printed.",
     ["inputs", "histories"], "all names, paths, modes, links and surrounding files, and all sequences of calls on them",
     TESTS + "nothing is written, and what else is around a file is never looked at.",
     ["src/id3v2lib.c", "src/id3v2lib.compat.c"],
     [("anonymous temporary file and rewriting in place", "ID3v2_write_tag, ID3v2_delete_tag"), ("read-only opens", "ID3v2_read_tag, ID3v2_read_tag_header, load_tag, tag_set_album_cover")],
     (), ["the directory tree, and the state of the process, before and after each call"])

prop("C21", "What is missing is reported as missing and acting on it does nothing",
     "A file or buffer without a tag (missing, empty, cut short, another version or identifier, a tag not at its start) yields NULL from every reader, looking up a frame that is not in the tag yields NULL or an empty list, no tag at all (NULL) yields NULL from every getter, and the old-style getters and content readers do the same. "
     "Deleting a tag or frame that is not there, writing no tag, writing to a missing file, reading a cover from a missing file or a directory, and freeing an empty or NULL list or header change no frame of the tag and no file. "
     "A tag created because there was none, or emptied of all frames, can be edited, written, read back and deleted like any other, and deleting it restores the file.",
     ["inputs", "histories"], "all files and buffers without a tag, all tags with frames missing, all calls on them in any order",
     TESTS + "two of the ways a tag can be missing are tried, on one function, and no frame is ever missing.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame_list.c", "src/modules/tag_header.c", "src/id3v2lib.compat.c"],
     [("absence checks", "TagHeader_parse, ID3v2_Tag_get_frame, ID3v2_Tag_get_frames, ID3v2_Tag_delete_frame"), ("an empty list is a node without frame", "FrameList_new, FrameList_remove_frame")],
     [("ID3v2_FrameList.frame", "NULL in the only node of an empty list", "include/modules/frame_list.h")], ["results of readers and getters, files and tags after each call"])

prop("C22", "Results depend only on the arguments and the files named",
     "What a call returns, and what it leaves in a tag or a file, is determined by its arguments and by the present contents of the files named. "
     "It is the same in a fresh process as after, or between, any other calls (also on the same files, changed since without a trace in size or time), in any locale, environment, working directory or umask, whatever errno, the open descriptors, the alignment of the arguments or the previous contents of memory are, and in whichever thread the call is made.",
     ["inputs", "histories"], "all sequences of calls and all states of the process they are made in",
     TESTS + "every test makes one call in one fresh process, so that nothing a call could wrongly remember or look at ever differs.",
     ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame.c", "src/modules/utils.c", "src/id3v2lib.compat.c"],
     [("no state outside of the tags", "all of src/"), ("every allocated byte is set before it is used", "CharStream_new, TextFrame_parse, CommentFrame_parse, ApicFrame_parse, new_tag")],
     (), ["returned tags, frames, headers and strings, and written files, compared between two processes"])

prop("C23", "What the public structures of a tag show is what counts",
     "The fields and contents reachable through the public structures are the tag: a version, revision, flags or padding size changed in the header, the flags or id of a frame, an encoding, language or picture type, bytes of a text, comment, picture or payload changed in place, or frames exchanged in the list are what every later lookup, edit and write sees, exactly as if the tag had been read that way. "
     "A written file holds what the structures show at that moment, in the frame size encoding of the version they show.",
     ["inputs", "histories"], "all tags, all such changes in all orders, mixed with edits, lookups, writes and re-reads",
     TESTS + "no test changes a field.",
     ["src/modules/tag.c", "src/modules/frame_header.c", "src/modules/frame.c", "src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c", "src/modules/frames/apic_frame.c", "include/modules/tag.h"],
     [("lookups compare the ids in the frames", "FrameList_get_frame_by_id, FrameList_get_frames_by_id"), ("sizes and flags are computed when written", "Tag_to_char_stream, FrameHeader_to_char_stream")],
     (), ["lookups and frames after each change, bytes of the written file"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    import re
    n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
