import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":mech,"hook_needed":hook}
    if state:a["state"]=state
    if observe:a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
def m(n,w):return {"name":n,"where":w}
def s(n,me,w):return {"name":n,"meaning":me,"where":w}
p("C01","Finished archives read back exactly, whatever the schedule and chunking",
"As long as the system reports no failure, every writing call within the format's limits succeeds, and a streamed writer's length counts the elements it accepted. Once every part of an archive (structs, vectors, streamed vectors, multivectors, raw data, nested subarchives) has been written and every call that wrote or finished a part returned success, any later open - same process, another process, or after the writer process died - yields exactly the values, elements, order, lengths and bytes that were written, through every access path (index, slice, forward and backward iteration). This holds for every field layout and representable value, every interleaving of parts being written at the same time, every size relative to internal buffering, whatever time passes between calls or the clock shows, whether directories and files are reached directly or through symbolic links, and every short write or interruption the operating system may legally make; content that a part's index cannot address is refused with an error instead of being finished successfully.",
["schedules","inputs","histories","fault_sequences"],
"all archive schemas and layouts, all contents, all interleavings of several open writers, all legal chunkings (short writes, EINTR) of the underlying I/O, all times of process death after the last acknowledgement",
"Tests write one fixed archive (karenina) part after part, far below the 32 MiB flush threshold, with layouts of 16/32-bit fields, on a healthy file system; no interleaving, no flush while growing, no short write, no field that straddles nine bytes is ever exercised end to end.",
["src/vector.rs","src/multivector.rs","src/storage.rs","src/archive.rs","src/bytereader.rs","src/bytewriter.rs","src/arrayview.rs","src/multiarrayview.rs","src/filestorage.rs","src/memstorage.rs"],
[m("buffer, threshold flush and final flush of streamed vectors","src/vector.rs ExternalVector::{grow,flush,close}"),m("flushed-size accounting and sentinel in the index","src/multivector.rs MultiVector::{grow,add_to_index,flush,close}"),m("complete writes with retry","src/storage.rs ResourceHandle::write, write_to_stream"),m("bit-exact field access","src/bytewriter.rs write_bytes!, src/bytereader.rs read_bytes!")],
[s("size_flushed / size_in_bytes","bytes already handed to the stream, used for index offsets and the header","src/multivector.rs, src/storage.rs")],
["return values of builder calls","values returned by an archive opened from a fresh storage object"])
p("C02","An unfinished archive never opens as if it were complete",
"At whatever moment the writing process dies or another process opens the archive - between or in the middle of individual writes, and even if each file independently lost its most recent writes - opening either fails with an error or yields an archive in which every part that is visible has the complete content of a finished (or just finishing) write. A required part is never seen empty, shortened, padded or mixed, an unfinished optional part is seen as absent, and neither opening nor reading panics.",
["crash_points","schedules","histories"],
"all build histories into a fresh directory, all crash points at and inside every file-system mutation, all per-file losses of a suffix of mutations, all interleavings of parts being written",
"No test ever looks at an archive that is not finished; crash points and torn writes are a quantifier over every system call of every build, none of which is sampled today.",
["src/storage.rs","src/vector.rs","src/multivector.rs","src/archive.rs","src/filestorage.rs"],
[m("size header checked against file length on open","src/storage.rs read_and_check_schema"),m("header of a streamed part only made valid when closing","src/storage.rs ResourceHandle::{try_new,close}"),m("all required resources are opened and verified","src/archive.rs define_archive! open")],
[s("size header","number of payload bytes; must not match the file length before the part is complete","first 8 bytes of every resource")],
["result of opening each crash image with a fresh storage object"])
p("C03","Failures while writing are reported, never swallowed and never a panic",
"If the storage reports a failure (disk full, I/O error, too many open files, permission) to a create, write or seek made on behalf of a writing call, that very call - creating an archive, setting a part, starting, growing or finishing a writer - returns an error: it neither succeeds nor panics. If a finishing or setting call does return success, also after earlier errors and retries, the part is complete and exact for every later reader. A refused element is not counted by the writer's length. A failure in one part leaves the parts finished before intact.",
["fault_sequences","schedules","histories"],
"all placements and sequences of transient and persistent failures over all system calls of all build histories, with and without retry by the caller",
"Tests run on a healthy file system only; no write, seek, open or mkdir ever fails, so no error path of the writers is executed.",
["src/storage.rs","src/vector.rs","src/multivector.rs","src/archive.rs","src/filestorage.rs"],
[m("error propagation","src/storage.rs ResourceStorage::write, ResourceHandle::{try_new,write,close}, create_external_vector, create_multi_vector, create_archive"),m("buffer kept when a flush fails","src/vector.rs ExternalVector::flush, src/multivector.rs MultiVector::flush"),m("panic on drop of an open handle","src/storage.rs Drop for ResourceHandle")],
None,["return value of each builder call under an injected failure","re-open after the faults stop"])
p("C04","Stored bytes are the canonical encoding, however they got there",
"The files of a finished archive are a pure function of its schema and content: for each part exactly one data file (64-bit little-endian payload size, payload with fields packed least-significant-bit first, 8 zero bytes) and one schema file holding the schema text verbatim, plus an index of start offsets with a final sentinel for multivectors, tag-prefixed variants, and the archive signature - and nothing else. They do not depend on the interleaving of writers, on buffering and flush boundaries, on short or interrupted writes, or on whether a vector was set at once or streamed.",
["schedules","inputs","fault_sequences","histories"],
"all schemas and contents, all interleavings, all chunkings of the writes, sizes around and beyond the buffer threshold",
"One golden archive is compared byte by byte; none of its parts is flushed more than once, written in pieces, or interleaved with another.",
["src/storage.rs","src/vector.rs","src/multivector.rs","src/archive.rs","src/bytewriter.rs","src/structbuf.rs"],
[m("resource framing","src/storage.rs write_to_stream, write_size, write_padding, ResourceHandle::close"),m("schema resources","src/storage.rs write_schema, create_external_vector, create_multi_vector"),m("variant encoding","src/archive.rs define_variadic_struct!"),m("bit packing","src/bytewriter.rs write_bytes!")],
None,["every byte and every name in the storage directory after the archive is finished"])
p("C05","Damaged, foreign or mismatched files are rejected when opening",
"If a required file of an archive is missing, truncated, extended, has a changed size header, or carries a schema (or archive signature schema) that differs in any way from the expected one, opening the archive fails with an error - a schema difference in valid text is reported as a signature mismatch naming that part, an inconsistent size, or a struct of the wrong size, as a size error - and never succeeds or panics, for whatever value the damaged bytes take. If only payload bytes changed, each part reads back as exactly what the stored bytes decode to; a multivector made unreadable by such damage is reported by a contained panic at worst, never by reading outside the stored data.",
["fault_sequences","inputs"],
"all finished archives, all single and combined at-rest damages: bit flips anywhere, truncation, extension, removal, files swapped between parts, arbitrary header values, arbitrary schema edits",
"Tests only open undamaged archives; no test has a wrong size, a wrong schema, or invalid text, let alone every flipped bit.",
["src/storage.rs","src/archive.rs","src/error.rs","src/multiarrayview.rs","src/filestorage.rs"],
[m("size and schema verification","src/storage.rs read_and_check_schema"),m("signature check","src/archive.rs define_archive! open"),m("bounds-checked multivector iteration","src/multiarrayview.rs MultiArrayView::at, MultiArrayViewItemIter::next")],
None,["result of open","values read after open"])
p("C06","Creating an archive never touches an existing one",
"Creating an archive where an archive of that name already exists - finished, still being written, abandoned by a crash after its signature was stored, or with its status temporarily impossible to determine - fails with an 'already exists' error and changes no stored byte. Creation elsewhere (another directory, another archive name in the same directory, or where an archive was removed) is unaffected, and builders and readers of the existing archive continue undisturbed.",
["histories","schedules","crash_points","fault_sequences"],
"all histories in which creation is attempted again at any point by any client, with failures of the existence check",
"No test creates an archive twice; nothing exercises the check at other points of a history or when the status query fails.",
["src/storage.rs","src/filestorage.rs","src/memstorage.rs"],
[m("existence check before writing the signature","src/storage.rs create_archive"),m("existence query","src/filestorage.rs exists, src/memstorage.rs exists")],
None,["result of creating again","all stored bytes before and after"])
p("C07","A failed or premature open leaves no trace; retrying gives exact data",
"Opening an archive while its files are missing, still being written, or temporarily unreadable (open, status or mapping calls failing) returns an error or exact data - never wrong data, never a panic. It changes nothing that is stored and has no lasting effect: writers on the same storage still finish successfully, and as soon as the obstacle is gone the next open through the same storage object succeeds with exact content.",
["schedules","fault_sequences","histories"],
"all interleavings of open attempts with writers over the same storage object (in memory and on disk), all placements of read-side failures over the system calls of open",
"Tests open each archive once, after it is finished, on a healthy system; the per-storage cache is never filled before the data is final and no read ever fails.",
["src/filestorage.rs","src/memstorage.rs","src/storage.rs","src/archive.rs"],
[m("cache of mappings per storage","src/filestorage.rs MemoryMappedFileStorage::read"),m("cache of snapshots per storage","src/memstorage.rs read_resource"),m("data is only handed out after verification","src/storage.rs read_and_check_schema")],
[s("maps / resources","data already opened through this storage object","src/filestorage.rs, src/memstorage.rs")],
["results of early and faulty opens","results of finishing calls","result of the open after faults stop"])
p("C08","Data handed out stays valid and unchanged while its owner lives",
"Every byte slice, view, item and iterator obtained from a storage, from a finished writer or from an opened archive keeps showing the same content for as long as that storage or any clone of that archive (or of one of its subarchives) is alive. Other reads, failed reads, re-opens, writes of other parts, removing or replacing the files on disk, and the dropping of all other handles in any order do not affect it.",
["histories","schedules","fault_sequences"],
"all sequences of further operations, and all orders of dropping handles, between obtaining a view and its last use",
"Tests read each view immediately while everything is alive; unsafe lifetime extension makes this a property of every later operation, which the compiler no longer checks.",
["src/filestorage.rs","src/memstorage.rs","src/storage.rs","src/archive.rs"],
[m("extended lifetimes: mappings and buffers are never dropped before the storage","src/filestorage.rs MemoryMappedFileStorage::read, src/memstorage.rs read_resource"),m("archive keeps its storage alive","src/archive.rs define_archive! _storage"),m("untracked memory descriptors","src/storage.rs MemoryDescriptor")],
None,["content of held views after every step; accesses to released memory"])
p("C09","Writing a part again replaces it completely",
"When a part is written again - after a completed, failed or abandoned earlier attempt, with longer, shorter or equal content, set at once or streamed - a reader opening the archive afterwards sees exactly the content of the last successful write with nothing left over from earlier attempts, also through a storage object that had read the earlier version; the same holds when a part's files or the whole directory were removed and written anew, or another directory was moved or copied into their place. If the last attempt failed or was cut off by a crash, a reader sees the previous or the new content in full, or an error, never a mixture.",
["histories","fault_sequences","crash_points"],
"all histories of repeated writes with failures, abandonment, crashes and retries, in memory and on disk (views of the earlier version no longer in use)",
"Every test writes every part exactly once.",
["src/filestorage.rs","src/memstorage.rs","src/storage.rs"],
[m("creating an output stream starts an empty resource","src/filestorage.rs create_output_stream, src/memstorage.rs create_output_stream"),m("cached data is refreshed","src/filestorage.rs read, src/memstorage.rs read_resource"),m("size header","src/storage.rs read_and_check_schema")],
None,["content read after each successful rewrite"])
p("C10","Abandoned writers are loud, and never abort or fake completeness",
"A streamed writer that goes out of scope without its finishing call having been made panics, unless the thread is already unwinding, in which case it stays quiet so that a panic elsewhere in the program can be caught and survived; a writer whose finishing call returned, with success or with an error, goes away quietly. In either case the abandoned part is not readable as a complete one, and parts finished before or after are unaffected.",
["schedules","histories","crash_points"],
"all points of a build at which any subset of open writers is dropped or cancelled by unwinding, any number of elements already grown or flushed",
"One test drops one freshly created low-level handle, one closes it; dropping after growth, several open writers, unwinding through them and the resulting files are not covered.",
["src/storage.rs","src/vector.rs","src/multivector.rs"],
[m("panic on drop of an open handle unless panicking","src/storage.rs Drop for ResourceHandle"),m("header of a streamed part only made valid when closing","src/storage.rs ResourceHandle::{try_new,close}")],
None,["panics observed by the caller","survival of the process","open after abandonment"])
p("C11","Optional parts never take the rest of the archive down",
"An optional part (struct, vector, multivector, raw data or subarchive) that is absent, unfinished, structurally damaged, of a different schema, or unreadable at the moment of opening is reported as absent, while the archive still opens and every other part reads back exactly. An optional part that was finished is reported as present with exactly its content, whatever happened to other optional parts.",
["fault_sequences","crash_points","inputs"],
"all subsets of optional parts and all ways (absence, crash, damage, read failure) in which each may be unavailable, at any nesting depth",
"Tests have one optional part, either present and intact or never written.",
["src/archive.rs"],
[m("optional resources map errors to None","src/archive.rs check_resource!, opt!, static_if!"),m("multivector pairs index and data","src/archive.rs define_archive! getters")],
None,["presence and content of every part after open"])
p("C12","In-memory and on-disk storage are interchangeable",
"The same sequence of operations - creating archives, setting and streaming parts in any interleaving, descending into subdirectories and subarchives, overwriting, using slash-separated names, querying existence, opening and reading early or late, with right or wrong schema - has the same outcomes on both storages: the same successes and categories of failure, and the same bytes. Both behave like a simple map from full resource name to last written content, however the operating system chops up the file writes.",
["histories","schedules","fault_sequences"],
"all histories of storage and builder operations over hierarchical names, with benign I/O chunking on the file side",
"Unit tests use memory storage for single resources and files for one archive; no history runs on both, subarchives are never built in memory.",
["src/memstorage.rs","src/filestorage.rs","src/storage.rs"],
[m("hierarchical names","src/memstorage.rs subdir, src/filestorage.rs subdir"),m("streams and resources","src/memstorage.rs create_output_stream/read_resource, src/filestorage.rs create_output_stream/read_resource")],
None,["outcome of every operation on both storages"])
p("C13","No file handle, mapping or buffer outlives its owner",
"A writer holds its file only until its finishing or setting call has returned, successfully or not, or it has been dropped; an opened archive holds mappings but no file handles. When the last storage, builder and archive handle is gone, no file handle, mapping or buffer remains, under any sequence of operations, failures and retries.",
["histories","fault_sequences","schedules"],
"all histories of building, failing, retrying, opening and dropping in any order",
"No test counts descriptors, mappings or memory; leaks on error paths need injected failures to appear.",
["src/storage.rs","src/filestorage.rs","src/memstorage.rs","src/vector.rs","src/multivector.rs"],
[m("stream released when closing","src/storage.rs ResourceHandle::close"),m("mappings owned by the storage","src/filestorage.rs MemoryMappedFileStorage"),m("shared ownership of storage","src/archive.rs define_archive! _storage")],
None,["open descriptors, live mappings and live heap bytes after each call and at the end"])
p("C14","Bit-packed field access is exact and leaves neighbours alone",
"For every integer, boolean or enumeration field of 1 to 64 bits at any bit offset, writing a representable value and reading it back gives that value, and no bit outside the field changes.",
["inputs"],"all types, offsets, widths, values and surrounding bytes",
"Tests sample a table of offsets and widths, mostly below bit 8 and with value 1.",
["src/bytereader.rs","src/bytewriter.rs","src/helper.rs","src/archive.rs"],
[m("bit access macros","src/bytereader.rs read_bytes!, src/bytewriter.rs write_bytes!")])
p("C15","Views agree with the sequence they show",
"Length, indexing, slicing with any kind of range, and any mixture of forward and backward iteration over array and multivector views agree with the underlying sequence of elements, and access outside the bounds panics.",
["inputs"],"all sequences, ranges and iteration patterns",
"Tests use a few fixed ranges over ten elements.",
["src/arrayview.rs","src/multiarrayview.rs"],
[m("slices and iterators","src/arrayview.rs, src/multiarrayview.rs")])
p("C16","In-memory vectors and struct buffers behave like plain sequences",
"A vector behaves like a growable sequence of zero-initialised structs under any sequence of growing, reserving, and element updates, and a struct buffer like one such struct; their byte views are exactly the packed elements.",
["inputs"],"all sequences of container operations",
"Tests grow two or three elements.",
["src/vector.rs","src/structbuf.rs"],
[m("byte buffer with padding","src/vector.rs Vector, src/structbuf.rs StructBuf")])
p("C17","Diagnostic text is faithful",
"The difference reported for a mismatching schema lets one reconstruct both schemas line by line, and debug output of views shows the true length and first ten elements.",
["inputs"],"all pairs of schemas and all sequences",
"Tests check debug output of one sequence; no schema difference is ever produced.",
["src/storage.rs","src/arrayview.rs","src/multiarrayview.rs","src/helper.rs"],
[m("line diff","src/storage.rs compute_diff"),m("debug preview","src/arrayview.rs debug_format, src/multiarrayview.rs debug_format")])
p("C18","Work of any length takes bounded memory",
"Streaming into an archive on disk and reading it need memory independent of the amount of data: each open streamed vector or multivector holds at most a few times its documented buffer (well below 256 MiB) besides its largest single item, and opening or holding an archive on disk holds no copy of its data, whatever mixture of growing, failing and retrying occurs. Doing the same things again and again on one storage - opening and closing archives, failing to create or to read, failed and abandoned attempts to write a part, queries - takes no more memory, mappings or file handles after many rounds than after a few.",
["histories","fault_sequences","schedules","inputs"],
"all amounts of streamed data and all repetitions of reading and failing operations",
"Tests write a few elements and open each archive once or twice; growth shows only with gigabytes or many repetitions, and failures multiply the paths on which something can pile up.",
["src/vector.rs","src/multivector.rs","src/filestorage.rs","src/memstorage.rs","src/storage.rs"],
[m("buffers flushed while growing","src/vector.rs ExternalVector::grow/flush, src/multivector.rs MultiVector::grow/flush"),m("mappings reused by path","src/filestorage.rs MemoryMappedFileStorage::read"),m("resources reused","src/memstorage.rs read_resource")],
None,["heap bytes held by the library after each call, mappings and descriptors after each round"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch); print(x["id"],x["statement"].count(". ")+1)
